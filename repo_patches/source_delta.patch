From eb747d22d91ef3afffcb82dad5f6dfe675fde6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 01/30] fix: require a verified handshake 2 before accepting
 handshake 4

The tally server accepted HANDSHAKE4 SUCCESS from a client that never sent
a valid HANDSHAKE2, so a peer could authenticate without the secret.
---
 privcount/protocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 6adb4bb..2e56501 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -936,7 +936,10 @@ class PrivCountServerProtocol(PrivCountProtocol):
                                        PrivCountProtocol.HANDSHAKE3))
                 self.handshake_failed()
         elif event_type == PrivCountProtocol.HANDSHAKE4:
-            if self.handshake4_verify(event_line):
+            # the client must have proved that it knows the secret handshake
+            # on this connection, before we believe that it succeeded
+            if (self.client_cookie is not None and
+                self.handshake4_verify(event_line)):
                 self.handshake_succeeded()
             else:
                 self.handshake_failed()
-- 
2.43.0


From d1b8fbf83406e142bc96e9a7353a72eb07380123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 02/30] fix: fail the handshake on malformed base64 and out of
 order lines

A peer that had not authenticated could end the process of a node: with a
cookie or HMAC that is not correctly padded base64, or with a HANDSHAKE3
before any cookies were exchanged.
---
 privcount/protocol.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 2e56501..14dd418 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -377,14 +377,18 @@ class PrivCountProtocol(LineOnlyReceiver):
         If b64_cookie matches the expected format for a base-64 encoded
         privcount cookie, return the decoded cookie.
         Otherwise, return False.
-        Raises an exception if the cookie is not correctly padded base64.
         '''
         if len(b64_cookie) != PrivCountProtocol.COOKIE_B64_BYTES:
             logging.warning("Invalid cookie: wrong encoded length {} expected {}"
                             .format(len(b64_cookie),
                                     PrivCountProtocol.COOKIE_B64_BYTES))
             return False
-        cookie = b64decode(b64_cookie)
+        try:
+            cookie = b64decode(b64_cookie)
+        except (TypeError, ValueError) as e:
+            logging.warning("Invalid cookie: not correctly encoded: {}"
+                            .format(e))
+            return False
         if len(cookie) != PrivCountProtocol.COOKIE_BYTES:
             logging.warning("Invalid cookie: wrong decoded length {} expected {}"
                             .format(len(cookie),
@@ -499,6 +503,9 @@ class PrivCountProtocol(LineOnlyReceiver):
         Otherwise, return False.
         Raises an exception if the HMAC is not correctly padded base64.
         '''
+        if not server_cookie or not client_cookie:
+            logging.warning("Invalid hmac: cookies have not been exchanged")
+            return False
         hmac = PrivCountProtocol.handshake_hmac_decode(b64_hmac)
         if not hmac:
             logging.warning("Invalid hmac: wrong format")
-- 
2.43.0


From 6f640b3439f615a92c3412bfc6721b9d876ed6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 03/30] fix: refuse malformed counter, sigma and noise weight
 configurations

NaN and non-numeric bin bounds, sigmas, noise weights and thresholds passed
the checks (every comparison with NaN is false), and missing or misshapen
parts of a start request raised an exception that ended the node.
---
 privcount/counter.py | 78 +++++++++++++++++++++++++++++++++++++++++---
 privcount/node.py    |  5 +++
 2 files changed, 78 insertions(+), 5 deletions(-)

diff --git a/privcount/counter.py b/privcount/counter.py
index c6fd576..9fab6b0 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -100,6 +100,15 @@ def add_counter_limits_to_config(config):
 
 MAX_DC_COUNT = 10**6
 
+def is_valid_number(value):
+    '''
+    Returns True if value is a number that can be compared with other numbers.
+    Numeric strings, booleans, and NaN are not valid numbers.
+    '''
+    return (isinstance(value, (int, long, float)) and
+            not isinstance(value, bool) and
+            value == value)
+
 def check_dc_threshold(dc_threshold, description="threshold"):
     '''
     Check that dc_threshold is a valid dc threshold.
@@ -108,6 +117,10 @@ def check_dc_threshold(dc_threshold, description="threshold"):
     Returns True if the dc threshold is valid.
     Logs a specific warning using description and returns False if it is not.
     '''
+    if not is_valid_number(dc_threshold):
+        logging.warning("Data collector {} must be a number, was {}"
+                        .format(description, dc_threshold))
+        return False
     if dc_threshold <= 0:
         logging.warning("Data collector {} must be at least 1, was {}"
                         .format(description, dc_threshold))
@@ -126,6 +139,10 @@ def check_noise_weight_value(noise_weight_value, description="value"):
     Returns True if the noise weight value is valid.
     Logs a specific warning using description, and returns False if it is not.
     '''
+    if not is_valid_number(noise_weight_value):
+        logging.warning("Noise weight {} must be a number, was {}".format(
+                description, noise_weight_value))
+        return False
     if noise_weight_value < 0.0:
         logging.warning("Noise weight {} must be positive, was {}".format(
                 description, noise_weight_value))
@@ -193,6 +210,10 @@ def check_noise_weight_config(noise_weight_config, dc_threshold):
     '''
     if not check_dc_threshold(dc_threshold):
         return False
+    if not isinstance(noise_weight_config, dict):
+        logging.warning("Noise weights must be a dictionary, was {}"
+                        .format(noise_weight_config))
+        return False
     # there must be noise weights for a threshold of DCs, or there must be
     # a default noise weight
     if (len(noise_weight_config) < dc_threshold and
@@ -6431,6 +6452,46 @@ def check_bin_count_matches_name(bins):
                 return False
     return True
 
+def check_counters_structure(counters, expected_subkey):
+    '''
+    Check that counters is a dictionary, and that each of its values is a
+    dictionary containing expected_subkey.
+    Returns True if counters has this structure, and False if it does not.
+    '''
+    if not isinstance(counters, dict):
+        logging.warning("the {} config is not a dictionary: {}"
+                        .format(expected_subkey, counters))
+        return False
+    for key in sorted(counters.keys()):
+        if (not isinstance(counters[key], dict) or
+            expected_subkey not in counters[key]):
+            logging.warning("counter {} does not have any {}: {}"
+                            .format(key, expected_subkey, counters[key]))
+            return False
+    return True
+
+def check_bins_structure(bins):
+    '''
+    Check that each counter in bins has a non-empty list of bins, and that
+    each bin is a list containing a numeric lower and upper bound.
+    Returns True if bins has this structure, and False if it does not.
+    '''
+    if not check_counters_structure(bins, 'bins'):
+        return False
+    for key in sorted(bins.keys()):
+        bin_list = bins[key]['bins']
+        if not isinstance(bin_list, (list, tuple)) or len(bin_list) == 0:
+            logging.warning("counter {} does not have a list of bins: {}"
+                            .format(key, bin_list))
+            return False
+        for bin in bin_list:
+            if (not isinstance(bin, (list, tuple)) or len(bin) != 2 or
+                not is_valid_number(bin[0]) or not is_valid_number(bin[1])):
+                logging.warning("bin {} in counter {} does not have a numeric lower and upper bound"
+                                .format(bin, key))
+                return False
+    return True
+
 def check_bins_config(bins, allow_unknown_counters=False):
     '''
     Check that bins are non-overlapping.
@@ -6438,9 +6499,11 @@ def check_bins_config(bins, allow_unknown_counters=False):
     If allow_unknown_counters is False, also check that all counter names are
     in the set of known counter names for this PrivCount version, returning
     False if there are any unknown counters.
-    Raises an exception if any counter does not have bins, or if any bin does
-    not have a lower and upper bound
+    Returns False if any counter does not have bins, or if any bin does not
+    have a numeric lower and upper bound.
     '''
+    if not check_bins_structure(bins):
+        return False
     if not allow_unknown_counters:
         if not check_counter_names(bins):
             return False
@@ -6455,9 +6518,8 @@ def check_bins_config(bins, allow_unknown_counters=False):
         sorted_bins = sorted(bins[key]['bins'])
         prev_bin = None
         for bin in sorted_bins:
-            # bins are an array [l, u, c], where c counts values such that:
+            # bins are an array [l, u], which counts values such that:
             # l <= value < u
-            # c is optional, and is ignored by this code
             l = bin[0]
             u = bin[1]
             # check for inverted bounds
@@ -6491,13 +6553,19 @@ def check_sigmas_config(sigmas, allow_unknown_counters=False):
     If allow_unknown_counters is False, also check that all counter names are
     in the set of known counter names for this PrivCount version, returning
     False if there are any unknown counters.
-    Raises an exception if any sigma value is missing.
+    Returns False if any sigma value is missing, or is not a finite number.
     '''
+    if not check_counters_structure(sigmas, 'sigma'):
+        return False
     if not allow_unknown_counters:
         if not check_counter_names(sigmas):
             return False
     # sort names alphabetically, so the logs are in a sensible order
     for key in sorted(sigmas.keys()):
+        if (not is_valid_number(sigmas[key]['sigma']) or
+            sigmas[key]['sigma'] == float('inf')):
+            logging.warning("invalid sigma for counter {}: not a finite number".format(key))
+            return False
         if sigmas[key]['sigma'] < 0.0:
             logging.warning("invalid sigma for counter {}: less than zero".format(key))
             return False
diff --git a/privcount/node.py b/privcount/node.py
index be73566..889b505 100644
--- a/privcount/node.py
+++ b/privcount/node.py
@@ -454,6 +454,11 @@ class PrivCountClient(PrivCountNode):
             logging.warning("start command from tally server cannot be completed due to missing data")
             return None
 
+        if (not isinstance(start_config['noise'], dict) or
+            'counters' not in start_config['noise']):
+            logging.warning("start command from tally server cannot be completed due to missing noise counters")
+            return None
+
         # a traffic model is optional
         if 'traffic_model' in start_config and not allow_unknown_counters:
             # if a traffic model was given but is not valid, fail
-- 
2.43.0


From ad6797caeced41d687947eeece63cadfafa3ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 04/30] fix: a share keeper that refuses a start request stays
 out of the round

The keystore was replaced before the blinding shares were checked: after a
refused start the share keeper was active, and the shares of the round that
it was in were lost.
---
 privcount/share_keeper.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index b1ce3ad..ca8e942 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -141,8 +141,9 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
         else:
             config['counters'] = combined_counters
 
-        self.keystore = SecureCounters(config['counters'], counter_modulus(),
-                                       require_generate_noise=False)
+        # don't join the round until every share has been imported
+        keystore = SecureCounters(config['counters'], counter_modulus(),
+                                  require_generate_noise=False)
         share_list = config['shares']
 
         private_key = load_private_key_file(self.config['key'])
@@ -151,7 +152,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
             secret = decrypt(private_key, encrypted_secret)
             # TODO: secure delete
             share['secret'] = secret
-            blinding_result = self.keystore.import_blinding_share(share)
+            blinding_result = keystore.import_blinding_share(share)
             if not blinding_result:
                 # the structure of the imported share did not match the
                 # configured counters
@@ -167,6 +168,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                      .format(len(share_list), len(config['counters']), count_bins(config['counters'])))
         # TODO: secure delete
         del private_key
+        self.keystore = keystore
         return {}
 
     def do_stop(self, config):
-- 
2.43.0


From 56ec2299e1fac8502cc0aad542815e4a7096da42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:54 +0000
Subject: [PATCH 05/30] fix: a start request to a busy data collector changes
 nothing

The request was refused, but only after it had replaced the round's start
configuration, and with it the noise, start time and collection period that
the delay between rounds is computed from.
---
 privcount/data_collector.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 13e8b9b..d27b9d6 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -200,6 +200,13 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         to start a new collection phase
         return None if failure, otherwise json will encode result
         '''
+        # if we are still running from a previous incarnation, we need to stop
+        # first
+        # check this before we change anything that belongs to that round
+        if self.aggregator is not None:
+            logging.warning("start command from tally server cannot be completed because we are already collecting")
+            return None
+
         # keep the start config to send to the TS at the end of the collection
         # deepcopy in case we make any modifications later
         self.start_config = deepcopy(config)
@@ -214,11 +221,6 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if dc_counters is None:
             return None
 
-        # if we are still running from a previous incarnation, we need to stop
-        # first
-        if self.aggregator is not None:
-            return None
-
         # we require that only the configured share keepers be used in the
         # collection phase, because we must be able to encrypt messages to them
         expected_sk_digests = set()
-- 
2.43.0


From 3affbe49c115eaf5e5a99022acc6800f531c55b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:09 +0000
Subject: [PATCH 06/30] fix: a round's start is recorded when the round is
 joined, not when it is checked

Checking a start request replaced the noise, start time and collection period
of the previous or running round, even when the request was then refused.
While a round was running, every check-in did this again.
---
 privcount/data_collector.py | 9 ++++++---
 privcount/node.py           | 3 ---
 privcount/share_keeper.py   | 2 ++
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index d27b9d6..da7f131 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -123,9 +123,9 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if self.start_config is None:
             return None
         else:
-            # we should have caught unknown counters when we started
-            return self.check_start_config(self.start_config,
-                                           allow_unknown_counters=False)
+            # the start config was checked when we started
+            return combine_counters(self.start_config['counters'],
+                                    self.start_config['noise']['counters'])
 
     def are_dc_events_expected(self):
         '''
@@ -269,6 +269,9 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                                      config.get('circuit_failure_lists', []),
                                      config.get('onion_address_lists', []))
 
+        # save various config items for the end of the round
+        self.set_round_start(config)
+
         defer_time = config['defer_time'] if 'defer_time' in config else 0.0
         logging.info("got start command from tally server, starting aggregator in {}".format(format_delay_time_wait(defer_time, 'at')))
         self.expected_aggregator_start_time = time() + defer_time
diff --git a/privcount/node.py b/privcount/node.py
index 889b505..6be3b08 100644
--- a/privcount/node.py
+++ b/privcount/node.py
@@ -495,9 +495,6 @@ class PrivCountClient(PrivCountNode):
             logging.warning("start command from tally server cannot be completed due to an enforced delay")
             return None
 
-        # save various config items for the end of the round
-        self.set_round_start(start_config)
-
         # combine bins and sigmas
         return combine_counters(start_config['counters'],
                                 start_config['noise']['counters'])
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index ca8e942..b3e203e 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -169,6 +169,8 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
         # TODO: secure delete
         del private_key
         self.keystore = keystore
+        # save various config items for the end of the round
+        self.set_round_start(config)
         return {}
 
     def do_stop(self, config):
-- 
2.43.0


From 5c6dbaa46323d2485a6128b0256dd141e052453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:09 +0000
Subject: [PATCH 07/30] fix: refuse a start request with unexpected share
 keepers

Removing an unexpected or repeated key from the expected keys raised KeyError,
and the data collector exited instead of answering that it can not start.
---
 privcount/data_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index da7f131..349fabb 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -237,7 +237,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 logging.info('we received an unexpected key for share keeper {}'.format(sk_uid))
                 digest_error = True
 
-            expected_sk_digests.remove(requested_sk_digest)
+            # each share keeper can only be used once
+            expected_sk_digests.discard(requested_sk_digest)
 
         if digest_error or len(expected_sk_digests) != 0:
             logging.info('refusing to start collecting without required share keepers')
-- 
2.43.0


From b7902abf40e63a7247ab692646e740c1eb190775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 08/30] fix: a stopped round's delayed start does not start the
 next round early

The delayed start only checked that some round was waiting to start: after a
stop and another start, the earlier round's timer started the later round.
---
 privcount/data_collector.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 349fabb..807e3e8 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -280,7 +280,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         # sync the time that we start listening for Tor events
         self.is_aggregator_pending = True
         aggregator_deferred = task.deferLater(reactor, defer_time,
-                                              self._start_aggregator_deferred)
+                                              self._start_aggregator_deferred,
+                                              self.aggregator)
         aggregator_deferred.addErrback(errorCallback)
         # return the generated shares now
         shares = self.aggregator.get_shares()
@@ -299,12 +300,13 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                      .format(len(shares), len(dc_counters), count_bins(dc_counters)))
         return shares
 
-    def _start_aggregator_deferred(self):
+    def _start_aggregator_deferred(self, aggregator):
         '''
+        Start aggregator, unless its round has been stopped in the meantime.
         This function is called using deferLater, so any exceptions will be
         handled by errorCallback.
         '''
-        if self.is_aggregator_pending:
+        if self.is_aggregator_pending and aggregator is self.aggregator:
             self.is_aggregator_pending = False
             self.aggregator.start()
             # schedule a once-off check that the aggregator has connected
-- 
2.43.0


From 01ab573628ab224f122c8a83cadebbb6f1d809bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 09/30] fix: replies to requests of an earlier round are not
 used in a later one

---
 privcount/protocol.py     |  6 +++--
 privcount/tally_server.py | 46 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 14dd418..99fd862 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1006,6 +1006,7 @@ class PrivCountServerProtocol(PrivCountProtocol):
 
     def send_start_event(self, config):
         assert config is not None
+        self.factory.set_start_requested(self.client_uid, self)
         self.sendLine("START {}".format(json_serialise(config)))
 
     def handle_start_event(self, event_type, event_payload):
@@ -1014,7 +1015,7 @@ class PrivCountServerProtocol(PrivCountProtocol):
             result_data = None
             if parts[0] == "SUCCESS" and len(parts) == 2:
                 result_data = json.loads(parts[1])
-            self.factory.set_start_result(self.client_uid, result_data)
+            self.factory.set_start_result(self.client_uid, result_data, self)
             self.send_status_event()
             return True
         else:
@@ -1022,6 +1023,7 @@ class PrivCountServerProtocol(PrivCountProtocol):
 
     def send_stop_event(self, config):
         assert config is not None
+        self.factory.set_stop_requested(self.client_uid, self)
         self.sendLine("STOP {}".format(json_serialise(config)))
 
     def handle_stop_event(self, event_type, event_payload):
@@ -1030,7 +1032,7 @@ class PrivCountServerProtocol(PrivCountProtocol):
             result_data = None
             if parts[0] == "SUCCESS" and len(parts) == 2:
                 result_data = json.loads(parts[1])
-            self.factory.set_stop_result(self.client_uid, result_data)
+            self.factory.set_stop_result(self.client_uid, result_data, self)
             self.send_status_event()
             return True
         else:
diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 029f927..d6d3e42 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1609,11 +1609,23 @@ class TallyServer(ServerFactory, PrivCountServer):
         else:
             return None
 
-    def set_start_result(self, client_uid, result_data):
+    def set_start_requested(self, client_uid, connection):
+        '''
+        called by protocol when it sends a start command on connection
+        '''
+        if self.collection_phase is not None:
+            self.collection_phase.set_start_requested(client_uid, connection)
+
+    def set_start_result(self, client_uid, result_data, connection):
         '''
         called by protocol
         '''
         if self.collection_phase is not None:
+            if not self.collection_phase.is_start_requested(client_uid,
+                                                            connection):
+                logging.warning("ignoring response to an outdated start command from {}"
+                                .format(TallyServer.get_client_display_name(str(client_uid))))
+                return
             self.collection_phase.store_data(client_uid, result_data,
                                              is_start=True)
 
@@ -1630,8 +1642,20 @@ class TallyServer(ServerFactory, PrivCountServer):
         else:
             return None
 
-    def set_stop_result(self, client_uid, result_data): # called by protocol
+    def set_stop_requested(self, client_uid, connection):
+        '''
+        called by protocol when it sends a stop command on connection
+        '''
         if self.collection_phase is not None:
+            self.collection_phase.set_stop_requested(client_uid, connection)
+
+    def set_stop_result(self, client_uid, result_data, connection): # called by protocol
+        if self.collection_phase is not None:
+            if not self.collection_phase.is_stop_requested(client_uid,
+                                                           connection):
+                logging.warning("ignoring response to an outdated stop command from {}"
+                                .format(TallyServer.get_client_display_name(str(client_uid))))
+                return
             self.collection_phase.store_data(client_uid, result_data,
                                              is_start=False)
 
@@ -1688,6 +1712,8 @@ class CollectionPhase(object):
         self.need_shares = set() # uids of DCs from which we still need encrypted shares
         self.final_counts = {} # uids of clients and their final reported counts
         self.need_counts = set() # uids of clients from which we still need final counts
+        self.start_requests = {} # the connection on which each client was last asked to start
+        self.stop_requests = {} # the connections on which each client was asked to stop
         self.error_flag = False
 
     def _change_state(self, new_state):
@@ -1757,6 +1783,22 @@ class CollectionPhase(object):
         '''
         pass
 
+    # The messages do not identify the round they belong to. A response that
+    # is delayed on an old connection must not be used in a later round, and if
+    # a client has restarted, the shares from its earlier response are void.
+
+    def set_start_requested(self, client_uid, connection):
+        self.start_requests[client_uid] = connection
+
+    def is_start_requested(self, client_uid, connection):
+        return self.start_requests.get(client_uid) is connection
+
+    def set_stop_requested(self, client_uid, connection):
+        self.stop_requests.setdefault(client_uid, []).append(connection)
+
+    def is_stop_requested(self, client_uid, connection):
+        return connection in self.stop_requests.get(client_uid, [])
+
     def store_data(self, client_uid, data, is_start=None):
         '''
         Store the data that client_uid returned in response to a start or
-- 
2.43.0


From 4919de6d9fedcccff67c10089bea3df44428210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 10/30] fix: the tally server needs a share for every share
 keeper from each data collector

---
 privcount/tally_server.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index d6d3e42..7caa423 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1832,6 +1832,13 @@ class CollectionPhase(object):
             if client_uid in self.need_shares:
                 # collect all shares for each SK together
                 shares = data # dict of {sk_uid : share}
+                # every SK needs a share from every DC: if there is a share
+                # missing, the blinding values would not cancel out
+                if set(shares) != set(self.sk_uids):
+                    logging.warning("ignoring shares from data collector {} for {} share keepers, expected {}"
+                                    .format(cname, len(shares),
+                                            len(self.sk_uids)))
+                    return
                 for sk_uid in shares:
                     self.encrypted_shares.setdefault(sk_uid, []).append(shares[sk_uid])
                 logging.info("received {} shares from data collector {}"
-- 
2.43.0


From 0303582ca0db6b9f9e647874f45f92acd10a07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 11/30] fix: no tally is published for a failed round

---
 privcount/tally_server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 7caa423..0d24a2a 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2248,7 +2248,11 @@ class CollectionPhase(object):
 
         # keep going, we want the context for debugging
         tally_was_successful = False
-        if len(self.final_counts) <= 0:
+        if self.is_error():
+            # some counts are missing, so the blinding values do not cancel
+            # out, and the results would be nonsense
+            logging.warning("collection phase failed, there are no tally results to write!")
+        elif len(self.final_counts) <= 0:
             logging.warning("no tally results to write!")
         else:
             tallied_counter = SecureCounters(self.counters_config,
-- 
2.43.0


From 78787194bac89728b8862255b96b33e47b8c93fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 12/30] fix: counts that are not integers fail the tally rather
 than the tally server

---
 privcount/counter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/privcount/counter.py b/privcount/counter.py
index 9fab6b0..e66d30d 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -7247,6 +7247,10 @@ class SecureCounters(object):
                 tally_item = counter[key]['bins'][i]
                 if len(tally_item) != 3:
                     return False
+                # the count must be an integer, or we can't add it up
+                if (not isinstance(tally_item[2], (int, long)) or
+                    isinstance(tally_item[2], bool)):
+                    return False
         return True
 
     def _derive_all_counters(self, blinding_factors, positive):
-- 
2.43.0


From 92dcc7b3bc932daa1cae63498c1b75976e9bf9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 13/30] fix: circuit events with invalid flags, and times that
 are not finite, are ignored

An invalid flag failed an assertion, which closed the control connection, and
a time that was not a number was counted by some of the counters of the event,
and failed an assertion in the others.
---
 privcount/data_collector.py | 10 +++++-----
 privcount/tagged_event.py   |  6 ++++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 807e3e8..84e165b 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1957,11 +1957,6 @@ class Aggregator(ReconnectingClientFactory):
         if prefix is None:
             prefix = ""
 
-        # Work around some unexpected flags from Tor
-        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
-                                                    is_mandatory=is_mandatory,
-                                                    prefix=prefix)
-
         # Validate the potentially mandatory fields
 
         if not is_float_valid("EventTimestamp",
@@ -2094,6 +2089,11 @@ class Aggregator(ReconnectingClientFactory):
                             min_value=1, max_value=None):
             return False
 
+        # Now that the flags are valid, work around some unexpected flags from Tor
+        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
+                                                    is_mandatory=is_mandatory,
+                                                    prefix=prefix)
+
         # if everything passed, this much is ok
         return True
 
diff --git a/privcount/tagged_event.py b/privcount/tagged_event.py
index e6213b3..65b322c 100644
--- a/privcount/tagged_event.py
+++ b/privcount/tagged_event.py
@@ -8,6 +8,8 @@ See LICENSE for licensing information
 
 import logging
 
+from math import isinf, isnan
+
 from privcount.config import validate_ip_address
 from privcount.log import summarise_string
 
@@ -249,6 +251,10 @@ def is_float_valid(field_name, fields, event_desc,
                         .format(field_name, fields[field_name], e,
                                 event_desc))
         return False
+    if isnan(field_value) or isinf(field_value):
+        logging.warning("Ignored {} '{}', must be finite {}"
+                        .format(field_name, fields[field_name], event_desc))
+        return False
     if min_value is not None and field_value < min_value:
         logging.warning("Ignored {} '{}', must be at least {} {}"
                         .format(field_name, field_value, min_value,
-- 
2.43.0


From 59caf121271e1ab0aa7c26ed050f4626d42f0a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 14/30] fix: malformed positional and Viterbi events are
 ignored

They closed the control connection, so the events until the next connection
were lost.
---
 privcount/data_collector.py | 42 +++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 84e165b..ec8d4db 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1096,17 +1096,19 @@ class Aggregator(ReconnectingClientFactory):
             if len(items) == Aggregator.STREAM_BYTES_ITEMS:
                 return self._handle_bytes_event(items[:Aggregator.STREAM_BYTES_ITEMS])
             else:
+                # Warn, but don't quit the connection
                 logging.warning("Rejected malformed {} event"
                                 .format(event_code))
-                return False
+                return True
 
         elif event_code == 'PRIVCOUNT_STREAM_ENDED':
             if len(items) == Aggregator.STREAM_ENDED_ITEMS:
                 return self._handle_stream_event(items[:Aggregator.STREAM_ENDED_ITEMS])
             else:
+                # Warn, but don't quit the connection
                 logging.warning("Rejected malformed {} event"
                                 .format(event_code))
-                return False
+                return True
 
         elif event_code == 'PRIVCOUNT_CIRCUIT_ENDED':
             if len(items) == Aggregator.CIRCUIT_ENDED_ITEMS:
@@ -1192,8 +1194,13 @@ class Aggregator(ReconnectingClientFactory):
     def _handle_bytes_event(self, items):
         assert(len(items) == Aggregator.STREAM_BYTES_ITEMS)
 
-        chanid, circid, strmid, is_outbound, bw_bytes = [int(v) for v in items[0:5]]
-        ts = float(items[5])
+        try:
+            chanid, circid, strmid, is_outbound, bw_bytes = [int(v) for v in items[0:5]]
+            ts = float(items[5])
+        except ValueError as e:
+            logging.warning("Ignored malformed PRIVCOUNT_STREAM_BYTES_TRANSFERRED event: '{}'"
+                            .format(e))
+            return True
 
         # TODO: secure delete
         #del items
@@ -1344,11 +1351,20 @@ class Aggregator(ReconnectingClientFactory):
     def _handle_stream_event(self, items):
         assert(len(items) == Aggregator.STREAM_ENDED_ITEMS)
 
-        chanid, circid, strmid, port, readbw, writebw = [int(v) for v in items[0:6]]
-        start, end = float(items[6]), float(items[7])
+        try:
+            chanid, circid, strmid, port, readbw, writebw = [int(v) for v in items[0:6]]
+            start, end = float(items[6]), float(items[7])
+            exit_stream_number = int(items[10])
+        except ValueError as e:
+            logging.warning("Ignored malformed PRIVCOUNT_STREAM_ENDED event: '{}'"
+                            .format(e))
+            return True
+        if any(math.isnan(t) or math.isinf(t) for t in [start, end]):
+            logging.warning("Ignored PRIVCOUNT_STREAM_ENDED event times '{}' '{}', must be finite"
+                            .format(start, end))
+            return True
         remote_host = items[8]
         remote_ip = items[9]
-        exit_stream_number = int(items[10])
 
         # TODO: secure delete
         #del items
@@ -2178,21 +2194,21 @@ class Aggregator(ReconnectingClientFactory):
 
         # we must have a traffic model to process the event
         if self.traffic_model is None:
-            return False
+            return True
 
         # the string should not be empty
         if not is_string_valid("ViterbiPathPackets",
                                fields, event_desc,
                                is_mandatory=True,
                                min_len=1):
-            return False
+            return True
 
         # we currently don't use the timestamp, but require it anyway
         if not is_float_valid("EventTimestamp",
                               fields, event_desc,
                               is_mandatory=True,
                               min_value=0.0):
-            return False
+            return True
 
         # get the result string
         viterbi_result = get_string_value("ViterbiPathPackets",
@@ -2210,21 +2226,21 @@ class Aggregator(ReconnectingClientFactory):
 
         # we must have a traffic model to process the event
         if self.traffic_model is None:
-            return False
+            return True
 
         # the string should not be empty
         if not is_string_valid("ViterbiPathStreams",
                                fields, event_desc,
                                is_mandatory=True,
                                min_len=1):
-            return False
+            return True
 
         # we currently don't use the timestamp, but require it anyway
         if not is_float_valid("EventTimestamp",
                               fields, event_desc,
                               is_mandatory=True,
                               min_value=0.0):
-            return False
+            return True
 
         # get the result string
         viterbi_result = get_string_value("ViterbiPathStreams",
-- 
2.43.0


From 3395661e33d1d53a0c4556855c0f1a3ba266dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 15/30] fix: upload delay times have many bins

Only the delay times of traffic models are sums in a single bin. An
HSDir2Store*UploadDelayTime counter was refused with many bins, and with
one bin its first event failed an assertion.
---
 privcount/counter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/privcount/counter.py b/privcount/counter.py
index e66d30d..9889d03 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -6440,7 +6440,9 @@ def check_bin_count_matches_name(bins):
         # handle template counters by stripping the non-template part
         key_template, _, _ = key.partition("_")
         # the TrafficModel DelayTime counters are single bin
-        if key_template.endswith("Count") or key_template.endswith("DelayTime"):
+        if (key_template.endswith("Count") or
+            ("TrafficModel" in key_template and
+             key_template.endswith("DelayTime"))):
             if bin_count != 1:
                 logging.warning("counter {} ends in Count, but has {} bins: {}"
                                 .format(key, bin_count, bins[key]))
-- 
2.43.0


From 450e1cc1fadf0722e95096a4e4f3099ca481dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 16/30] fix: domains match suffixes when exact matches are
 counted too

The suffix lists were only searched when no exact match counter was
collected: otherwise every domain that did not match exactly was counted as
matching no suffix.
---
 privcount/data_collector.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index ec8d4db..370a93e 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1496,23 +1496,15 @@ class Aggregator(ReconnectingClientFactory):
 
             if self.needs_domain_suffix_match:
 
-                # An exact match implies a suffix match
-                # (but not vice versa, and not necessarily on the same bin)
-                # exact matches match the first bin
-                # suffix matches match an arbitrary bin (which is ok, because
-                # the suffix lists should be disjoint)
-                if self.needs_domain_exact_match and domain_exact_match_bin is not None:
-                    domain_suffix_match_bin = domain_exact_match_bin
-                else:
-                    # check for a suffix match
-                    # this is O(N), but obviously correct
-                    # assert suffix_match(domain_suffix_obj, remote_host) == any([remote_host.endswith("." + domain) for domain in domain_exact_obj])
-
-                    # this is O(D), where D is the number of domain components
-                    # The TS guarantees that the lists are disjoint
-                    domain_suffix_match_bin = suffix_match(self.domain_suffix_obj,
-                                                           remote_host,
-                                                           separator=".")
+                # check for a suffix match
+                # this is O(N), but obviously correct
+                # assert suffix_match(domain_suffix_obj, remote_host) == any([remote_host.endswith("." + domain) for domain in domain_exact_obj])
+
+                # this is O(D), where D is the number of domain components
+                # The TS guarantees that the lists are disjoint
+                domain_suffix_match_bin = suffix_match(self.domain_suffix_obj,
+                                                       remote_host,
+                                                       separator=".")
 
                 if domain_suffix_match_bin == 0:
                     suffix_match_str = "DomainSuffixMatch"
-- 
2.43.0


From 863ab864acf1b2206bf609203ffea49b1bf4d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 17/30] fix: count circuits by activity and status together

---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 370a93e..aa97b78 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2551,7 +2551,7 @@ class Aggregator(ReconnectingClientFactory):
                                            inc=inc)
 
             # Prefix Active/Inactive Failure/Success Circuit Suffix
-            self.secure_counters.increment('{}{}Circuit{}'
+            self.secure_counters.increment('{}{}{}Circuit{}'
                                            .format(counter_prefix, activity, status, counter_suffix),
                                            bin=bin,
                                            inc=inc)
-- 
2.43.0


From f9bb6b77b6089508fab944ddd77d2f489969a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 18/30] fix: count onion service circuits by version, and
 Tor2Web clients, under their counters' names

---
 privcount/data_collector.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index aa97b78..ba56034 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2556,7 +2556,8 @@ class Aggregator(ReconnectingClientFactory):
                                            bin=bin,
                                            inc=inc)
 
-    def _increment_circuit_close_hs_status_counters(self, counter_prefix,
+    def _increment_circuit_close_hs_status_counters(self, position,
+                                                    hs_side,
                                                     counter_suffix,
                                                     hs_version,
                                                     is_active,
@@ -2565,17 +2566,20 @@ class Aggregator(ReconnectingClientFactory):
                                                     inc=1):
         '''
         Increment bin by inc for the counter variants starting with
-        counter_prefix and ending in counter_suffix, using hs_version,
-        is_active and is_failure to create counter names.
+        position and ending in counter_suffix, using hs_version, hs_side,
+        is_active and is_failure to create counter names. hs_side is the hop
+        and role, it comes after the version in counter names.
 
         Unknown counter names are ignored.
         '''
-        assert counter_prefix is not None
+        assert position is not None
+        assert hs_side is not None
         assert counter_suffix is not None
         assert hs_version is None or hs_version == 2 or hs_version == 3
 
         # HSDir/Intro/Rend ...
-        self._increment_circuit_close_status_counters(counter_prefix,
+        self._increment_circuit_close_status_counters('{}{}'
+                                                      .format(position, hs_side),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2589,8 +2593,8 @@ class Aggregator(ReconnectingClientFactory):
         else:
             hs_version_name = '{}'.format(hs_version)
 
-        self._increment_circuit_close_status_counters('{}{}'
-                                                      .format(counter_prefix, hs_version_name),
+        self._increment_circuit_close_status_counters('{}{}{}'
+                                                      .format(position, hs_version_name, hs_side),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2730,7 +2734,7 @@ class Aggregator(ReconnectingClientFactory):
             if hs_role is None:
                 hop = None
             elif hs_role == "Client":
-                hop = "Tor2web"
+                hop = "Tor2Web"
             else:
                 hop = "SingleOnion"
         else:
@@ -2738,7 +2742,7 @@ class Aggregator(ReconnectingClientFactory):
 
         # HSDir /2/3 /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
         # Intro/Rend /U/2/3 /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-        self._increment_circuit_close_hs_status_counters(position,
+        self._increment_circuit_close_hs_status_counters(position, "",
                                                          counter_suffix,
                                                          hs_version,
                                                          is_active,
@@ -2749,8 +2753,7 @@ class Aggregator(ReconnectingClientFactory):
         if hs_role is not None:
             # HSDir /2/3 Client/Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 Client/Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}'
-                                                             .format(position, hs_role),
+            self._increment_circuit_close_hs_status_counters(position, hs_role,
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
@@ -2761,8 +2764,9 @@ class Aggregator(ReconnectingClientFactory):
             assert hop is not None
             # HSDir /2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}{}'
-                                                             .format(position, hop, hs_role),
+            self._increment_circuit_close_hs_status_counters(position,
+                                                             '{}{}'
+                                                             .format(hop, hs_role),
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
-- 
2.43.0


From 0e729f62defcabb03e4e80ff591e52b11ed02173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 19/30] fix: a secret file shorter than the minimum length is
 not used

---
 privcount/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 99fd862..d3c0ec8 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1487,6 +1487,7 @@ class TorControlProtocol(object):
                                 .format(secret_file,
                                         len(secret_string),
                                         min_len))
+                return None
             if len(secret_string) > max_len:
                 logging.warning("Authentication failed, file '{}' was wrong length {}, wanted at most {}"
                                 .format(secret_file,
-- 
2.43.0


From ca22aba8722a52429b8632418fa371178556f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 20/30] fix: notice a relay that has EnablePrivCount off when
 events are being enabled

---
 privcount/protocol.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index d3c0ec8..6d833f3 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1987,6 +1987,19 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
             self.sendLine("GETINFO privcount-version")
             self.sendLine("GETINFO fingerprint")
             self.state = 'discovering'
+        elif (self.state in ('discovering', 'processing') and
+              line.startswith("250 EnablePrivCount=")):
+            # Check PrivCount is on: we ask when we enable events, so we are
+            # processing by the time we hear the answer
+            _, _, privcount_enabled = line.partition("EnablePrivCount=")
+            if privcount_enabled != "1":
+                logging.warning("Connection with {} failed: EnablePrivCount is {}"
+                                .format(transport_info(self.transport),
+                                        privcount_enabled))
+                self.quit()
+                return
+            else:
+                logging.info("Confirmed that EnablePrivCount is 1")
         elif self.state == 'discovering':
             # -- These cases continue discovering, or quit() -- #
             # It doesn't have PrivCount
@@ -1995,17 +2008,6 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
                                  .format(transport_info(self.transport)))
                 self.quit()
                 return
-            # Check PrivCount is on
-            elif line.startswith("250 EnablePrivCount="):
-                _, _, privcount_enabled = line.partition("EnablePrivCount=")
-                if privcount_enabled != "1":
-                    logging.warning("Connection with {} failed: EnablePrivCount is {}"
-                                .format(transport_info(self.transport),
-                                        privcount_enabled))
-                    self.quit()
-                    return
-                else:
-                    logging.info("Confirmed that EnablePrivCount is 1")
             # It's a relay, and it's just told us its Nickname
             elif line.startswith("250 Nickname="):
                 _, _, nickname = line.partition("Nickname=")
-- 
2.43.0


From a8a2b4074d67501c686e935316b6bf30ee4096fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 21/30] fix: stopping collection does not skip authentication
 and discovery

---
 privcount/protocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 6d833f3..136c3aa 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1811,7 +1811,10 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
             # Don't check if EnablePrivCount is off: other instances might
             # want it to stay on
             self.active_events = None
-            self.state = 'waiting'
+            # If we haven't finished authentication or discovery yet, we still
+            # need to
+            if self.state == 'processing':
+                self.state = 'waiting'
 
     def sendLine(self, line):
         '''
-- 
2.43.0


From 314c9b99cfad373fba84ef13f563c7d2deea46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 22/30] fix: inject events only into the connection that asked
 for them

---
 privcount/inject.py   | 23 +++++++++++++++++------
 privcount/protocol.py | 10 +++++-----
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index b83a934..abf8390 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -54,9 +54,9 @@ class PrivCountDataInjector(ServerFactory):
         return
 
     def buildProtocol(self, addr):
-        # XXX multiple connections to our server will kill old connections
-        self.protocol = TorControlServerProtocol(self)
-        return self.protocol
+        # There can be multiple connections to our server, but we only inject
+        # events into the one that (authenticated and) asked for them last
+        return TorControlServerProtocol(self)
 
     def set_listeners(self, listener_list):
         '''
@@ -83,7 +83,14 @@ class PrivCountDataInjector(ServerFactory):
         # Configuring multiple cookie files is not supported
         return self.control_cookie_file
 
-    def start_injecting(self):
+    def start_injecting(self, protocol):
+        '''
+        Start sending events to protocol, which has asked for them.
+        '''
+        self.protocol = protocol
+        if self.injecting:
+            logging.debug("Already injecting events")
+            return
         self.injecting = True
         if self.listeners is not None:
             logging.info("Injector has connected: no longer listening for new connections")
@@ -99,9 +106,11 @@ class PrivCountDataInjector(ServerFactory):
             self.event_file = open(normalise_path(self.logpath), 'r')
         self._inject_events()
 
-    def stop_injecting(self):
+    def stop_injecting(self, protocol=None):
         '''
         Stop sending events to the data collector, close all connections.
+        If protocol is not None, only stop if we are sending events to
+        protocol.
         Depending on the protocol, closing the connection can erase all unread
         data. So we stop sending events, but delay the actual close for a
         short amount of time.
@@ -111,6 +120,9 @@ class PrivCountDataInjector(ServerFactory):
         if not self.injecting:
             logging.debug("Ignoring request to stop injecting when injection is not in progress")
             return
+        if protocol is not None and protocol is not self.protocol:
+            logging.debug("Ignoring request to stop injecting from another connection")
+            return
         self.injecting = False
         if not self.pending_stop:
             self.pending_stop = True
@@ -379,7 +391,6 @@ def run_inject(args):
     # injects events into the first client to connect
     # Since these are synthetic events, it is safe to use /tmp for the socket
     # path
-    # XXX multiple connections to our server will kill old connections
     listener_config = {}
     if args.port is not None:
         listener_config['port'] = args.port
diff --git a/privcount/protocol.py b/privcount/protocol.py
index 136c3aa..4f6a8d5 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -2489,11 +2489,11 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
                 if len(upper_setevents) == 0:
                     # if there are no requested events, turn events off
                     self.sendLine("250 OK")
-                    self.factory.stop_injecting()
+                    self.factory.stop_injecting(self)
                 elif upper_setevents.issubset(upper_known_events):
                     # if every requested event is in the known events
                     self.sendLine("250 OK")
-                    self.factory.start_injecting()
+                    self.factory.start_injecting(self)
                 else:
                     unknown_events = upper_setevents.difference(
                         upper_known_events)
@@ -2502,7 +2502,7 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
                     # that's a minor, irrelevant protocol difference
                     self.sendLine('552 Unrecognized event "{}"'
                                   .format(unknown_events[0]))
-                    self.factory.stop_injecting()
+                    self.factory.stop_injecting(self)
             elif parts[0] == "GETINFO":
                 # the correct response to an empty GETINFO is an empty OK
                 if len(parts) == 1:
@@ -2600,7 +2600,7 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
         '''
         Quit and close the connection
         '''
-        self.factory.stop_injecting()
+        self.factory.stop_injecting(self)
         self.sendLine("250 closing connection")
         self.transport.loseConnection()
         self.clear()
@@ -2612,5 +2612,5 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
         logging.debug("Connection with {} was lost: {}"
                       .format(transport_info(self.transport),
                               reason.getErrorMessage()))
-        self.factory.stop_injecting()
+        self.factory.stop_injecting(self)
         self.clear()
-- 
2.43.0


From 8b5c06cdc66f10af8b5c6c75628aa6f4f6b737d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 23/30] fix: unknown events are reported from the requested set

---
 privcount/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 4f6a8d5..125bb23 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -2501,7 +2501,7 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
                     # this line displays the event name uppercased
                     # that's a minor, irrelevant protocol difference
                     self.sendLine('552 Unrecognized event "{}"'
-                                  .format(unknown_events[0]))
+                                  .format(sorted(unknown_events)[0]))
                     self.factory.stop_injecting(self)
             elif parts[0] == "GETINFO":
                 # the correct response to an empty GETINFO is an empty OK
-- 
2.43.0


From f2b61875872ac248ce3d847066c0a3c9a45e18c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 24/30] fix: the injector skips authentication only if nothing
 is configured

---
 privcount/protocol.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 125bb23..2d3edcd 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -2342,6 +2342,14 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
         TorControlProtocol.clear(self)
         self.authenticated = False
 
+    def isAuthenticationOptional(self):
+        '''
+        Returns True if there is no configured cookie file, and no configured
+        password file, even one that we can't use.
+        '''
+        return (self.getConfiguredCookieFile() is None and
+                self.getConfiguredPasswordFile() is None)
+
     def connectionMade(self):
         '''
         overrides twisted function
@@ -2393,9 +2401,9 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
                     auth_methods.append("SAFECOOKIE")
                 if config_password is not None:
                     auth_methods.append("HASHEDPASSWORD")
-                # We don't do NULL authentication unless there are no other
-                # options (what would be the point, otherwise?)
-                if len(auth_methods) == 0:
+                # We don't do NULL authentication unless no other options are
+                # configured (what would be the point, otherwise?)
+                if self.isAuthenticationOptional():
                     auth_methods.append("NULL")
                 if self.cookie_string is not None:
                     encoded_cookie_file = \
@@ -2465,8 +2473,9 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
                 # If there is no set password, accept any password or cookie
                 # hash: this is safe, because this tor control protocol stub
                 # does not handle any sensitive information
-                if ((self.getConfiguredCookieFile() is None and
-                     config_password is None) or
+                # (But if there is a password file that we can't use, don't
+                # accept anything)
+                if (self.isAuthenticationOptional() or
                     client_hash_matches or
                     config_password == client_password):
                     self.sendLine("250 OK")
-- 
2.43.0


From 63830bf3d04f7f8a9fdd8eb7a84fb36db76e1d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 25/30] fix: changed match list files are noticed even if lists
 are removed, reordered or repeated

---
 privcount/tally_server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 0d24a2a..4c94c7e 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -416,7 +416,11 @@ class TallyServer(ServerFactory, PrivCountServer):
             new_processed_config[suffixes_key] = {}
         if files_key in new_config and len(new_config[files_key]) > 0:
             # Track list changes for processed list reloads
-            has_any_previous_list_changed = False
+            # If lists have been added, removed, or reordered, the old
+            # processed lists do not match the new ones
+            has_any_previous_list_changed = (
+                [normalise_path(f) for f in new_config[files_key]] !=
+                old_match_files)
             # reload all the raw lists
             for i in xrange(len(new_config[files_key])):
                 (file_path,
-- 
2.43.0


From f0be1791731f1b81e994ead858b7080a4927ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 26/30] fix: accept onion addresses with an upper case suffix
 in match lists

---
 privcount/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/config.py b/privcount/config.py
index e3c46b2..e0764bf 100644
--- a/privcount/config.py
+++ b/privcount/config.py
@@ -134,7 +134,7 @@ def strip_onion_str(onion_str):
     # if there are no dots, take the entire string
     onion_domain_components = onion_str.split('.')
     for onion_str in reversed(onion_domain_components):
-        if len(onion_str) == 0 or onion_str == "onion":
+        if len(onion_str) == 0 or onion_str.lower() == "onion":
             continue
         else:
             return onion_str.lower()
-- 
2.43.0


From 64ee2c500e982db9e574d52685375c6ec8ecaa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 27/30] fix: a configuration file with any kind of error leaves
 the previous configuration in force

---
 privcount/data_collector.py | 4 ++++
 privcount/share_keeper.py   | 4 ++++
 privcount/tally_server.py   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index ba56034..cf00607 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -414,6 +414,10 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception as e:
+            # keep the previous config, regardless of what was wrong
+            logging.warning("problem reading config file: {}".format(e))
+            log_error()
 
 class Aggregator(ReconnectingClientFactory):
     '''
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index b3e203e..44acc45 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -260,3 +260,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception as e:
+            # keep the previous config, regardless of what was wrong
+            logging.warning("problem reading config file: {}".format(e))
+            log_error()
diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 4c94c7e..bcb28c2 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1012,6 +1012,10 @@ class TallyServer(ServerFactory, PrivCountServer):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception as e:
+            # keep the previous config, regardless of what was wrong
+            logging.warning("problem reading config file: {}".format(e))
+            log_error()
 
     MIN_SAFE_RTT = 2.0
     TYPICAL_RTT_JITTER = 1.0
-- 
2.43.0


From e7277d26810caef7a091eb612a00210b20684f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 28/30] fix: clients replace their configuration as a whole,
 with keys that come and go

---
 privcount/data_collector.py | 8 ++++++--
 privcount/share_keeper.py   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index cf00607..14d14cd 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -402,9 +402,13 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 changed = False
                 for k in dc_conf:
                     if k not in self.config or dc_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], dc_conf[k]))
-                        self.config[k] = dc_conf[k]
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), dc_conf[k]))
                         changed = True
+                for k in self.config:
+                    if k not in dc_conf:
+                        logging.info("removed config for key {}".format(k))
+                        changed = True
+                self.config = dc_conf
                 if not changed:
                     logging.debug('no config changes found')
 
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index 44acc45..a288291 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -248,9 +248,13 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                 changed = False
                 for k in sk_conf:
                     if k not in self.config or sk_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], sk_conf[k]))
-                        self.config[k] = sk_conf[k]
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), sk_conf[k]))
                         changed = True
+                for k in self.config:
+                    if k not in sk_conf:
+                        logging.info("removed config for key {}".format(k))
+                        changed = True
+                self.config = sk_conf
                 if not changed:
                     logging.debug('no config changes found')
 
-- 
2.43.0


From 0ea6bdad161fea02821b9a48e03cf8e0a636ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 29/30] fix: the expected end of a round does not follow a
 configuration changed since it began

---
 privcount/tally_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index bcb28c2..c9e8bae 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1271,7 +1271,8 @@ class TallyServer(ServerFactory, PrivCountServer):
         if self.collection_phase is not None:
             starting_ts = self.collection_phase.get_start_ts()
             if starting_ts is not None:
-                status['expected_end_time'] = starting_ts + self.config['collect_period']
+                # the config might have changed since the round started
+                status['expected_end_time'] = starting_ts + self.collection_phase.period
 
         return status
 
-- 
2.43.0


From 629394723cfc4eca7b7326022e8b8ef5f1730236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 30/30] fix: counters whose bins are one object in the
 configuration are tallied

---
 privcount/counter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/privcount/counter.py b/privcount/counter.py
index 9889d03..f1d56e4 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -7209,15 +7209,20 @@ class SecureCounters(object):
         If require_generate_noise is True, assert if we did not add noise
         before detaching the counters
         '''
-        self.counters = deepcopy(counters)
+        self.counters = {}
         self.modulus = long(modulus)
         self.shares = None
         self.is_noise_pending = require_generate_noise
 
         # initialize all counters to 0L
         # counters use unlimited length integers to avoid overflow
-        for key in self.counters:
-            assert('bins' in self.counters[key])
+        for key in counters:
+            assert('bins' in counters[key])
+            # the configs of some counters can be the same object (for example,
+            # YAML aliases), but each bin needs its own count
+            self.counters[key] = deepcopy(counters[key])
+            self.counters[key]['bins'] = [deepcopy(item)
+                                          for item in counters[key]['bins']]
             for item in self.counters[key]['bins']:
                 assert len(item) == 2
                 # bin is now, e.g.: [0.0, 512.0, 0L] for bin_left, bin_right,
-- 
2.43.0

