HARNESS, PROPS, ORDER = {}, {}, []
AT = ('asan', 'tsan')
SAN = 'gcc 10 AddressSanitizer, UndefinedBehaviorSanitizer and ThreadSanitizer report what they are built to report'

def H(name, src, repo, **k):
    HARNESS[name] = dict(src=src, repo=repo, **k)

def G(h, g, n, variants=('asan',), **k):
    d = dict(h=h, g=g, n=n, variants=list(variants)); d.update(k); return d

def P(pid, title, statement, over, quant, why, files, mech, groups, rule, require, technique=None, note=None, assumptions=(), **k):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, pid
    tsan = any('tsan' in g['variants'] for g in groups)
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, groups=groups, rule=rule, require=require, level='exploration',
                      technique=technique or ('runtime monitoring: model-based oracle over seeded executions of the real code under ASan+UBSan' + (' and TSan with injected delays' if tsan else '')),
                      note=note or 'No violation in the executions explored, on inputs and schedules drawn from VERIF_SEED; trusts the oracle in /verif/harness and the sanitizers.',
                      assumptions=[SAN] + list(assumptions), **k)
    ORDER.append(pid)
