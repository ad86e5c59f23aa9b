"""Obligations, verdicts, known findings and evidence for one property."""
import hashlib
import json
import math
import os
import random
import re
import sys
import time
import traceback
from fractions import Fraction

from .engine import AnalysisLimit, Anchor, Interp
from .sym import R, Rat, Poly, ZERO, equal, evaluate, forget, ONE
from .values import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SVGIO_ROOT", "/repo")


class Deadline(Exception):
    pass


class Report:
    def __init__(self, pid, tier, budget):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.budget = budget
        self.rows = []
        self.floors = {}
        self.rules = {}
        self.facts = {}
        self.assumptions = []
        self.interps = []
        self.shard = None  # (index, number of worker processes)
        self.count = 0
        self.more = ([], {})  # functions and notes of worker processes

    @property
    def thorough(self):
        return self.tier == "thorough"

    def interp(self, **kw):
        I = Interp(REPO)
        for k, v in kw.items():
            setattr(I, k, v)
        self.interps.append(I)
        return I

    def rule(self, name, text, floor=1):
        self.rules[name] = text
        self.floors[name] = floor

    def left(self):
        return self.budget - (time.time() - self.t0)

    # verdicts -------------------------------------------------------------
    def ok(self, rule, inst):
        self.rows.append((rule, inst, "ok", "", None))

    def bad(self, rule, inst, msg, where=None):
        self.rows.append((rule, inst, "bad", msg, where))

    def und(self, rule, inst, why):
        self.rows.append((rule, inst, "undecided", why, None))

    def decide(self, rule, inst, verdict, msg="", where=None):
        if verdict is True:
            self.ok(rule, inst)
        elif verdict is False:
            self.bad(rule, inst, msg, where)
        else:
            self.und(rule, inst, msg or "undecided")

    def each(self, rule, inst, fn, *a):
        """run one obligation: fn returns True/False/None or (verdict, message[, where]);
        analysis limits make it undecided"""
        self.count += 1
        if self.shard is not None and (self.count - 1) % self.shard[1] != self.shard[0]:
            return None
        if self.left() < 0:
            self.und(rule, inst, "time budget used up")
            return None
        try:
            r = fn(*a)
        except Anchor:
            raise
        except (AnalysisLimit, RecursionError) as e:
            self.und(rule, inst, "limit: %s" % e)
            return None
        except Exception as e:
            if os.environ.get("SVGCHECK_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.und(rule, inst, "internal: %s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            return None
        if isinstance(r, tuple):
            v, msg = r[0], r[1]
            where = r[2] if len(r) > 2 else None
        else:
            v, msg, where = r, "", None
        self.decide(rule, inst, v, msg, where)
        return v

    # worker processes -----------------------------------------------------
    def pack(self):
        notes = {}
        for I in self.interps:
            for k, v in I.notes.items():
                notes[k] = notes.get(k, 0) + v
        return {
            "rows": [(r, i, v, str(m), fmt_where(w) if w else None) for r, i, v, m, w in self.rows],
            "rules": self.rules,
            "floors": self.floors,
            "assumptions": self.assumptions,
            "facts": self.facts,
            "functions": sorted(set().union(*[I.visited_fns for I in self.interps])) if self.interps else [],
            "notes": notes,
        }

    def unpack(self, d):
        self.rows += d["rows"]
        self.rules.update(d["rules"])
        self.floors.update(d["floors"])
        self.assumptions += [a for a in d["assumptions"] if a not in self.assumptions]
        self.facts.update(d["facts"])
        self.more[0].extend(d["functions"])
        for k, v in d["notes"].items():
            self.more[1][k] = self.more[1].get(k, 0) + v

    # finishing ------------------------------------------------------------
    def known(self):
        out = {}
        p = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p, encoding="utf-8"):
                m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)$", line.strip())
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3)
        return out

    def finish(self):
        known = self.known()
        # one verdict per (rule, instance): bad > undecided > ok
        best = {}
        rank = {"ok": 0, "undecided": 1, "bad": 2}
        for row in self.rows:
            k = (row[0], row[1])
            if k not in best or rank[row[2]] > rank[best[k][2]]:
                best[k] = row
        rows = list(best.values())
        counts = {}
        for r in rows:
            c = counts.setdefault(r[0], {"ok": 0, "undecided": 0, "bad": 0, "known": 0})
            if r[2] == "bad" and self.key(r) in known:
                c["known"] += 1
            else:
                c[r[2]] += 1
        viol, kn = [], []
        for r in rows:
            if r[2] == "bad":
                (kn if self.key(r) in known else viol).append(r)
        decided = sum(c["ok"] + c["bad"] + c["known"] for c in counts.values())
        und = sum(c["undecided"] for c in counts.values())
        broken = []
        for name, fl in self.floors.items():
            c = counts.get(name, {"ok": 0, "bad": 0, "known": 0})
            late = sum(1 for r in rows if r[0] == name and r[2] == "undecided" and "time budget" in str(r[3]))
            fl = fl // 2 if fl > 2 else fl
            if c["ok"] + c["bad"] + c["known"] + late < fl:
                broken.append("rule %s decided %d instances, expected at least %d" % (name, c["ok"] + c["bad"] + c["known"], fl))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        fns = sorted(set(self.more[0]).union(*[I.visited_fns for I in self.interps]))
        digest = hashlib.sha256()
        d = os.path.join(REPO, "svgio")
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                digest.update(open(os.path.join(d, f), "rb").read())
        samples = []
        seen = {}
        for r in rows:
            if seen.get((r[0], r[2]), 0) < 3:
                seen[(r[0], r[2])] = seen.get((r[0], r[2]), 0) + 1
                samples.append("%s [%s] %s %s" % (r[2], r[0], r[1], r[3][:160]))
        notes = dict(self.more[1])
        for I in self.interps:
            for k, v in I.notes.items():
                notes[k] = notes.get(k, 0) + v
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the source of /repo/svgio (never imported or executed). Every obligation is one instance of a rule; 'ok' and 'bad' are decided, 'undecided' ones are not counted as evidence either way.",
                "rule": "; ".join("%s: %s" % kv for kv in self.rules.items()),
                "obligations": len(rows),
                "discharged": sum(c["ok"] for c in counts.values()),
                "undecided": und,
                "known_findings": len(kn),
                "per_rule": counts,
                "functions_analysed": len(fns),
                "functions": fns[:400],
                "source_digest": digest.hexdigest(),
                "samples": samples[:60],
                "undecided_list": ["[%s] %s: %s" % (r[0], r[1], r[3][:200]) for r in rows if r[2] == "undecided"][:80],
                "imprecision_notes": dict(sorted(notes.items(), key=lambda t: -t[1])[:20]),
            },
            "assumptions": self.assumptions
            + [
                "abstract semantics of Python built-ins and of the standard-library calls modelled in svgcheck/models.py",
                "floating-point rounding is abstracted (real arithmetic)",
            ],
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        for k, v in self.facts.items():
            ev["coverage"][k] = v
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for r in kn:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[self.key(r)]))
        print(
            "%s %s: %d obligations, %d discharged, %d undecided, %d known, %d violations, %d functions, %.1fs"
            % (self.pid, self.tier, len(rows), ev["coverage"]["discharged"], und, len(kn), len(viol), len(fns), time.time() - self.t0)
        )
        rp = os.path.join(HERE, "evidence", self.pid + ".violation.txt")
        if viol:
            with open(rp, "w") as f:
                for r in viol:
                    f.write("%s\n  rule: %s\n  %s\n  at: %s\n\n" % (self.key(r), self.rules.get(r[0], ""), r[3], fmt_where(r[4])))
            for r in viol[:8]:
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
                print("   [%s] %s: %s  (%s)" % (r[0], r[1], r[3], fmt_where(r[4])))
            return 1
        if os.path.exists(rp):
            os.unlink(rp)
        if broken:
            for b in broken:
                print("ANALYSIS-BROKEN property=%s %s" % (self.pid, b))
            return 2
        return 0

    @staticmethod
    def key(row):
        return "%s|%s" % (row[0], row[1])


def fmt_where(w):
    if not w:
        return "-"
    if isinstance(w, str):
        return w
    return "%s.py:%s in %s: %s" % (w[0], w[2], w[1], w[3])


# ------------------------------------------------------------------ comparing closed forms


def all_free(rats):
    out = set()
    for r in rats:
        for a in r.all_atoms():
            if a.args is None and a.name != "tau":
                out.add(a)
    return sorted(out, key=lambda a: str(a.name))


def flatten(st, rng):
    """one conjunction of the constraint tree: (list of (poly, interval), {atom: Rat})"""
    facts = list(st.facts.items())
    subs = dict(st.sub)
    eqs = []

    def go(hist):
        for h in hist:
            f, sb, hh = rng.choice(h.alts)
            facts.extend(f.items())
            for a, v in sb.items():
                if a in subs:
                    if subs[a] != v:
                        eqs.append((Rat(Poly.of(a)), v))
                else:
                    subs[a] = v
            go(hh)

    go(st.hist)
    return facts, subs, eqs


def tree_needs(st):
    """pairs of closed forms mentioned anywhere in the constraint tree"""
    out = []
    seen = set()

    def go(hist):
        for h in hist:
            if id(h) in seen:
                continue
            seen.add(id(h))
            for f, sb, hh in h.alts:
                for p in f:
                    out.append((Rat(p), Rat(p)))
                for a, v in sb.items():
                    out.append((Rat(Poly.of(a)), v))
                go(hh)

    go(st.hist)
    return out


def sample_env(st, rats, rng, tries=100, ranges=None):
    """a valuation of the free atoms consistent with the partition's constraints"""
    scale = [1.0, 3.0, 10.0, 40.0]
    branchy = bool(st.hist)
    facts, subs, eqs = flatten(st, rng)
    plan = None
    whole = False
    for t in range(tries):
        if branchy and t % 20 == 0 and t:
            # alternate between one choice of alternatives and free valuations filtered by the tree
            whole = t % 40 == 20
            if whole:
                facts, subs, eqs = list(st.facts.items()), dict(st.sub), tree_needs(st)
            else:
                facts, subs, eqs = flatten(st, rng)
            plan = None
        if plan is None:
            need = list(rats) + [Rat(p) for p, _ in facts] + list(subs.values()) + [Rat(Poly.of(a)) for a in subs]
            for x, y in eqs:
                need += [x, y]
            free = all_free(need)
            box = {}
            for p, iv in facts:
                if len(p.t) == 1:
                    (m, c), = p.t.items()
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].args is None and c == 1:
                        box[m[0][0]] = box[m[0][0]].meet(iv) if m[0][0] in box else iv
            plan = ([a for a in free if a not in subs], [a for a in free if a in subs], box)
        ind, dep, box = plan
        env = {}
        for a in ind:
            iv = box.get(a)
            lo = float(iv.lo) if iv is not None and iv.lo is not None else None
            hi = float(iv.hi) if iv is not None and iv.hi is not None else None
            if ranges and a.name in ranges:
                lo, hi = ranges[a.name]
            s = rng.choice(scale)
            if isinstance(a.name, str) and a.name == "inf":
                env[a.name] = 1e300
                continue
            if lo is not None and hi is not None:
                x = rng.uniform(lo, hi)
            elif lo is not None:
                x = lo + rng.uniform(0, s) + 1e-3
            elif hi is not None:
                x = hi - rng.uniform(0, s) - 1e-3
            else:
                x = rng.uniform(-s, s)
            if isinstance(a.name, str) and a.name.startswith("int:"):
                x = float(round(x))
            env[a.name] = x
        try:
            settle(dep, subs, env)
            apps = [(Rat(Poly.of(a)) - v, POINT) for a, v in subs.items() if a.args is not None]
            repair([(Rat(p), iv) for p, iv in facts] + apps, ind, dep, subs, env, box, rng)
            good = True
            for r, iv in apps:
                if abs(evaluate(r, env)) > 1e-9:
                    good = False
            for p, iv in facts:
                if not good:
                    break
                x = evaluate(Rat(p), env)
                eps = 1e-12 + 1e-12 * abs(x)
                lo, hi = iv.lo, iv.hi
                if lo is not None and lo == hi:
                    eps = 1e-9 * max(1.0, abs(x))
                    if abs(x - float(lo)) > eps:
                        good = False
                        break
                    continue
                if lo is not None and (x < float(lo) - eps or (iv.lo_open and x <= float(lo))):
                    good = False
                elif hi is not None and (x > float(hi) + eps or (iv.hi_open and x >= float(hi))):
                    good = False
                elif any(abs(x - float(n)) < 1e-9 for n in iv.ne):
                    good = False
                if not good:
                    break
            if whole:
                good = good and holds(st, env)
            else:
                for x, y in eqs:
                    if good and abs(evaluate(x, env) - evaluate(y, env)) > 1e-9:
                        good = False
            if good:
                return env
        except (ZeroDivisionError, ValueError, OverflowError, KeyError):
            continue
    return None


def settle(dep, subs, env):
    """values of the atoms that are defined by others"""
    todo = list(dep)
    for _ in range(len(dep) + 1):
        rest = []
        for a in todo:
            try:
                env[a.name] = evaluate(subs[a], env)
            except KeyError:
                rest.append(a)
        if not rest:
            break
        todo = rest


POINT = Interval(Fraction(0), Fraction(0))


def repair(facts, ind, dep, subs, env, box, rng):
    """move single atoms so that violated constraints hold (narrow ranges are never hit by chance)"""
    movable = {a for a in ind if not (isinstance(a.name, str) and (a.name == "inf" or a.name.startswith("int:")))}
    for _ in range(3):
        clean = True
        for r, iv in facts:
            p = r.num if r.den is ONE else None
            lo = float(iv.lo) if iv.lo is not None else None
            hi = float(iv.hi) if iv.hi is not None else None
            x = evaluate(r, env)
            if (lo is None or x > lo or x == lo and not iv.lo_open) and (hi is None or x < hi or x == hi and not iv.hi_open):
                continue
            if degenerate(r, hi, movable, env):
                clean = False
                continue
            # |e| within bounds constrains e itself
            ap = [(m, c) for m, c in p.t.items() if m] if p is not None else []
            if len(ap) == 1 and len(ap[0][0]) == 1 and ap[0][0][0][1] == 1 and ap[0][0][0][0].name == "abs" and ap[0][1] == 1:
                k = float(p.t.get((), 0))
                lo = None if lo is None else lo - k
                hi = None if hi is None else hi - k
                r = ap[0][0][0][0].args[0]
                sg = rng.choice((-1.0, 1.0))
                if hi is not None and hi < 0:
                    continue
                if lo is None or lo <= 0:
                    lo = -hi
                elif sg < 0:
                    lo, hi = (-hi if hi is not None else None), -lo
                x = evaluate(r, env)
            cand = [a for a in r.all_atoms() if a in movable]
            if not cand:
                continue
            a = rng.choice(sorted(cand, key=lambda a: str(a.name)))
            if lo is not None and hi is not None:
                want = rng.uniform(lo, hi) if hi - lo > 1e-6 else (lo + hi) / 2
            elif lo is not None:
                want = lo + rng.uniform(0.01, 2.0)
            else:
                want = hi - rng.uniform(0.01, 2.0)
            keep = v = env[a.name]
            for _ in range(4):
                env[a.name] = v + 1.0
                forget()
                d = evaluate(r, env) - x
                if d == 0:
                    break
                v += (want - x) / d
                env[a.name] = v
                forget()
                x = evaluate(r, env)
                if abs(x - want) <= 1e-13 * max(1.0, abs(want)):
                    break
            bx = box.get(a)
            if bx is not None and (bx.lo is not None and v < float(bx.lo) or bx.hi is not None and v > float(bx.hi)):
                env[a.name] = keep
                forget()
                continue
            env[a.name] = v
            forget()
            clean = False
        if clean:
            return
        settle(dep, subs, env)
        forget()


_collapse = {}


def collapse_plan(r):
    """[(coordinates of the first point, [(index, coordinate)...])] of the segment lengths in a closed form"""
    plan = _collapse.get(r)
    if plan is None:
        plan = []
        for m in sorted(r.num.t, key=str):
            for a, _ in m:
                if a.name == "uf" and len(a.args) > 4 and a.args[0] == R(1):
                    first = a.args[2:4] if a.args[2] != R(-77) else a.args[4:6]
                    ats = []
                    for i in range(4, len(a.args)):
                        at = a.args[i].all_atoms()
                        if len(at) == 1 and a.args[i] == Rat(Poly.of(next(iter(at)))):
                            ats.append((i % 2, next(iter(at))))
                    plan.append((first, ats))
        if len(_collapse) > 20000:
            _collapse.clear()
        _collapse[r] = plan
    return plan


def degenerate(r, hi, movable, env):
    """a segment's length demanded to vanish: let its points coincide"""
    if hi is None or hi > 1e-9:
        return False
    plan = collapse_plan(r)
    for first, ats in plan:
        v = [evaluate(x, env) for x in first]
        for i, a in ats:
            if a in movable:
                env[a.name] = v[i]
        forget()
    return bool(plan)


def always(st, pred, rats=(), n=12, seed=7):
    """does a numeric predicate hold on every sampled valuation of the partition?  None when
    no valuation was found"""
    rng = random.Random(seed)
    k = 0
    for _ in range(n):
        env = sample_env(st, list(rats), rng)
        if env is None:
            break
        k += 1
        try:
            if not pred(env):
                return False
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            return None
    return True if k else None


def same(st, got, want, tol=1e-9, samples=6, ranges=None, seed=1):
    """True / False / None for two closed forms under the facts of a partition"""
    g, w = st.norm(got), st.norm(want)
    if equal(g, w):
        return True
    rng = random.Random(seed)
    n = 0
    for _ in range(samples):
        env = sample_env(st, [g, w], rng, ranges=ranges)
        if env is None:
            break
        try:
            a, b = evaluate(g, env), evaluate(w, env)
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            continue
        n += 1
        if abs(a - b) > tol * max(1.0, abs(a), abs(b)):
            return False
    if n >= 3:
        return True
    return None


def holds(st, env, fine=False):
    """do the constraints of a partition hold under a valuation of the free atoms (fine: exactly,
    for valuations by tiny numbers)"""
    def inside(x, iv):
        eps = 0.0 if fine else 1e-9 * max(1.0, abs(x))
        lo, hi = iv.lo, iv.hi
        if lo is not None and lo == hi:
            return abs(x - float(lo)) <= eps
        if lo is not None and (x < float(lo) or (iv.lo_open and x <= float(lo))):
            return False
        if hi is not None and (x > float(hi) or (iv.hi_open and x >= float(hi))):
            return False
        return not any(x == float(n) if fine else abs(x - float(n)) < 1e-12 for n in iv.ne)

    def level(facts, sub, hist):
        for a, v in sub.items():
            if abs(evaluate(Rat(Poly.of(a)), env) - evaluate(v, env)) > 1e-9:
                return False
        for p, iv in facts.items():
            if not inside(evaluate(Rat(p), env), iv):
                return False
        return all(any(level(*alt) for alt in h.alts) for h in hist)

    return level(st.facts, st.sub, st.hist)


def cover(outcomes, ranges, fn, n=40, seed=3):
    """judge the extracted decision tree on sampled valuations: for each valuation the
    outcomes whose constraints it satisfies are judged by fn(state, value, env).  ranges
    are limits per free atom, or a function of a random source giving a whole valuation"""
    rng = random.Random(seed)
    done = missed = 0
    for k in range(n):
        env = ranges(rng, k) if callable(ranges) else {}
        for name, (lo, hi) in () if callable(ranges) else ranges.items():
            x = rng.uniform(lo, hi)
            if k % 5 == 4 and rng.random() < 0.5:
                x = rng.choice((lo, hi))
            env[name] = float(round(x)) if name.startswith("int:") else x
        hit = False
        for s, v in outcomes:
            try:
                if not holds(s, env):
                    continue
                if isinstance(v, Raise):
                    return False, "raises %s for %s" % (v.name, show(env)), v.where
                r = fn(s, v, env)
            except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                continue
            if isinstance(r, tuple):
                r, msg = r[0], r[1]
            else:
                msg = ""
            if r is False:
                return False, "%s for %s" % (msg, show(env))
            if r is True:
                hit = True
        done += hit
        missed += not hit
    if done and missed <= n // 4:
        return True
    return None, "only %d of %d valuations decided" % (done, done + missed)


def show(env):
    return ", ".join("%s=%g" % kv for kv in sorted(env.items()))


def feasible(st, rats=(), seed=1):
    return sample_env(st, list(rats), random.Random(seed)) is not None


def rat_of(I, st, v):
    """closed form of a numeric abstract value, or None"""
    v = I.resolve(st, v)
    if isinstance(v, Num):
        return st.norm(v.r)
    if isinstance(v, Const) and isinstance(v.v, bool):
        return R(int(v.v))
    return None


def only(results):
    """the single normal outcome"""
    ok = [(s, v) for s, v in results if not isinstance(v, Raise)]
    if len(ok) != 1 or len(results) != 1:
        raise AnalysisLimit("expected one outcome, got %d (%s)" % (len(results), [v for s, v in results if isinstance(v, Raise)][:2]))
    return ok[0]


def normal(results):
    return [(s, v) for s, v in results if not isinstance(v, Raise)]


def raised(results):
    return [(s, v) for s, v in results if isinstance(v, Raise)]
