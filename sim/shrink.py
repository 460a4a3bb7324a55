"""Minimise a violating run: operations and faults first, then schedule choices."""
import copy
import json


def shrink(chk, f, budget, clock):
    t0 = clock()
    cls = f["v"]["cls"]
    best = {"scenario": f["scen"], "choices": f["choices"], "sseed": f["sseed"]}
    tries = [0]

    def attempt(scen, choices):
        tries[0] += 1
        r = chk.execute(copy.deepcopy(scen), best["sseed"], replay=copy.deepcopy(choices))
        for v in r.violations:
            if v["cls"] == cls:
                return v, r
        return None

    first = attempt(best["scenario"], best["choices"])
    if first is None:
        return {"ok": False, "why": "violation did not recur from recorded choices", **best, "v": f["v"], "tries": 1}
    best["v"], r = first
    best["choices"] = r.choices
    best["thash"] = r.thash
    progress = True
    while progress and clock() - t0 < budget:
        progress = False
        for cand in chk.shrinks(copy.deepcopy(best["scenario"])):
            if clock() - t0 > budget:
                break
            a = attempt(cand, best["choices"])
            if a is not None:
                best["scenario"] = cand
                best["v"], r = a
                best["choices"] = r.choices
                best["thash"] = r.thash
                progress = True
                break
        if progress:
            continue
        for stream in sorted(best["choices"]):
            if clock() - t0 > budget:
                break
            seq = best["choices"][stream]
            if not any(seq):
                continue
            cands = [[]]
            n = len(seq)
            k = n // 2
            while k >= 1 and len(cands) < 60:
                cands.append(seq[:n - k])
                for i in range(0, n, k):
                    if any(seq[i:i + k]):
                        cands.append(seq[:i] + [0] * min(k, n - i) + seq[i + k:])
                k //= 2
            for c in cands:
                if clock() - t0 > budget:
                    break
                if c == seq:
                    continue
                ch = dict(best["choices"])
                ch[stream] = c
                a = attempt(best["scenario"], ch)
                if a is not None and weight(a[1].choices) < weight(best["choices"]):
                    best["v"], r = a
                    best["choices"] = r.choices
                    best["thash"] = r.thash
                    progress = True
                    break
            if progress:
                break
    # drop trailing zeros (the default) from the streams
    ch = {}
    for k, v in best["choices"].items():
        while v and v[-1] == 0:
            v = v[:-1]
        if v:
            ch[k] = v
    a = attempt(best["scenario"], ch)
    if a is not None:
        best["v"], r = a
        best["thash"] = r.thash
        best["choices"] = ch
    best["ok"] = True
    best["tries"] = tries[0]
    return best


def weight(ch):
    return sum(1 for v in ch.values() for x in v if x), sum(x for v in ch.values() for x in v)
