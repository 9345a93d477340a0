"""Case driver: fn(job) yields (key, why-or-None, nontrivial) per explored case; runs jobs in crash-isolated workers."""


import time


def split(seq, k=16):
    seq = list(seq)
    return [seq[i::k] for i in range(k) if seq[i::k]]


def drive(run, name, jobs, fn, what="evaluations", nt="distinct_nontrivial"):
    def work(job):
        t0 = time.time()
        cases = hits = 0
        bad, first = [], None
        for key, why, nontrivial in fn(job):
            cases += 1
            first = first or (nontrivial and key)
            hits += bool(nontrivial)
            if why and len(bad) < 3:
                bad.append((key, why))
            if bad and time.time() - t0 > (60 if run.quick else 1800):     # the verdict is known; a broken tree may be arbitrarily slow
                break
        return cases, hits, bad, first
    named = set()
    for out in run.pmap(work, jobs, enough=lambda out: out[2]):
        if out is None:
            continue
        run.count(what, out[0])
        run.count(nt, out[1])
        if out[3] and name not in named:
            named.add(name)
            run.sample({"section": name, "case": str(out[3])})
        for key, why in out[2]:
            run.fail("%s:%s" % (name, key), why)


def section(run, name, jobs, fn, **kw):
    run.section(name, lambda r: drive(r, name, jobs, fn, **kw))
