'''writing ndjson traces for TLC (no nulls, no floats, ASCII)'''
import json, sys, traceback

class Tracer(object):
    def __init__(self, path):
        self.f = open(path, 'w')
    def emit(self, rec):
        self.f.write(json.dumps(rec, sort_keys=True) + '\n')
    def close(self):
        self.f.close()

def scenarios(path):
    with open(path) as f:
        for l in f:
            if l.strip():
                yield json.loads(l)

def exc_name():
    t, v = sys.exc_info()[:2]
    return '%s: %s' % (t.__name__, v)
