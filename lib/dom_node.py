'''C04-C07, C27: share keepers and data collectors under an arbitrary tally server'''
import random
import vlib

KINDS = [(k, a) for k in ('sk', 'dc') for a in ('TRUE', 'FALSE')]

def run(ctx):
    rng = random.Random(ctx.seed)
    n = 4000 if ctx.thorough else 240
    scns = []
    def gen(kind, k, a):
        def go():
            g = vlib.generate(ctx, 'NodeMC', 'Node%s_%s_%s.cfg' % (kind, k, a), extra=('-simulate', 'num=%d' % (n // 3), '-depth', '28', '-seed', str(ctx.seed)))
            rng2 = random.Random(ctx.seed)
            rng2.shuffle(g)
            return [(k, a, x) for x in g[:n]]
        return go
    for part in vlib.parallel(*[gen(kind, k, a) for kind in ('Gen', 'Chain') for k, a in KINDS]):
        for k, a, acts in part:
            for i, x in enumerate(acts):
                x['i'] = rng.randint(0, 29)
                if x['a'] == 'wait' and rng.random() < .4:
                    x['checkin'] = True
                if x['a'] == 'stop' and not x['send'] and rng.random() < .3:
                    x['send'] = None
            scns.append({'id': 'n%d' % len(scns), 'kind': k, 'cfg': {'delay': 10, 'always': a == 'TRUE', 'tol': 2}, 'acts': acts})
    def models():
        for k, a in KINDS:
            vlib.model_check(ctx, 'NodeMC', 'NodeMC_%s_%s.cfg' % (k, a), workers=4)
        if ctx.thorough:
            vlib.model_check(ctx, 'NodeMC', 'NodeMC3.cfg', workers=6, timeout=3000)
        vlib.model_check(ctx, 'NodeMC', 'NodeMCVac.cfg', expect_violation='Vac')
    def conf():
        t = vlib.drive(ctx, 'node', scns)
        vlib.sample_trace(ctx, t[0], 12)
        vlib.validate(ctx, 'NodeTrace', t)
    vlib.parallel(models, conf)
