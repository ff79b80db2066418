"""Executable contracts on the real code: small deterministic oracles over seeded random and corner-case
inputs.  They never decide a property by themselves; they replay and search failing inputs."""
import copy, signal, traceback, zlib
import numpy as np

ORACLES = []


class Oracle:
    def __init__(self, props, name, fn, iters, min_iters, what):
        self.props, self.name, self.fn, self.iters, self.min_iters, self.what = props, name, fn, iters, min_iters, what
        self.sample = None


def oracle(props, iters=200, min_iters=5, name=None):
    props = [props] if isinstance(props, str) else props
    def deco(fn):
        ORACLES.append(Oracle(props, name or fn.__name__, fn, iters, min_iters, (fn.__doc__ or '').strip()))
        return fn
    return deco


class Violation(Exception):
    def __init__(self, what, inputs=None, key=None):
        super().__init__(what); self.what, self.inputs, self.key = what, inputs, key


class Skip(Exception):
    pass


class TimeUp(Exception):
    pass


class T:
    def __init__(self, rng, i):
        self.rng, self.i, self.inputs = rng, i, {}

    def note(self, **kw):
        for k, v in kw.items():
            try: self.inputs[k] = copy.deepcopy(v)
            except Exception: self.inputs[k] = repr(v)[:200]

    def check(self, cond, what, **kw):
        if not bool(np.all(cond)): raise Violation(what, dict(self.inputs, **kw))

    def close(self, a, b, what, rtol=1e-7, atol=1e-9, **kw):
        a, b = np.asarray(a, float), np.asarray(b, float)
        ok = a.shape == b.shape or a.size == 1 or b.size == 1
        with np.errstate(all='ignore'):
            ok = ok and bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))
        if not ok: raise Violation(what, dict(dict(self.inputs, got=a, expected=b), **kw))

    def raises(self, exc, f, what, **kw):
        try: r = f()
        except exc: return
        except Exception as e:
            raise Violation('%s: raised %s instead of %s' % (what, type(e).__name__, exc), dict(self.inputs, **kw))
        raise Violation('%s: nothing raised' % what, dict(self.inputs, returned=repr(r)[:200], **kw))

    def mean_is(self, x, mean, sd, what, sig=6.0, **kw):
        """the average of independent values with the given mean and (an upper bound of the) standard deviation"""
        x = np.asarray(x, float)
        z = (x.mean() - mean) / (sd / np.sqrt(len(x))) if sd > 0 else (0.0 if np.allclose(x.mean(), mean) else np.inf)
        if not abs(z) < sig: raise Violation(what, dict(self.inputs, average=x.mean(), expected=mean, standard_errors=z, samples=len(x), **kw))

    def uniform_is(self, u, what, sig=6.0, **kw):
        """values that should be independent standard uniforms"""
        u = np.asarray(u, float)
        self.check(np.all((u >= -1e-9) & (u <= 1 + 1e-9)), what + ' (range)', least=u.min(), largest=u.max(), **kw)
        self.mean_is(u, .5, np.sqrt(1 / 12), what + ' (mean)', sig, **kw)
        self.mean_is(u * u, 1 / 3, np.sqrt(4 / 45), what + ' (second moment)', sig, **kw)
        n = len(u); k = np.sort(u)
        d = max(np.max(np.arange(1, n + 1) / n - k), np.max(k - np.arange(n) / n)) * np.sqrt(n)
        self.check(d < sig / 1.9, what + ' (distribution)', ks=d, **kw)      # 2 exp(-2 d^2) < 5e-9 at sig = 6

    def gen(self): return np.random.default_rng(int(self.rng.integers(2 ** 40)))

    # corner-rich values
    def real(self, scale=1.0): 
        return float(self.rng.choice([self.rng.normal(0, scale), self.rng.normal(0, 5 * scale), self.rng.uniform(-1, 1) * scale, float(self.rng.integers(-3, 4))]))

    def pos(self, scale=1.0):
        return float(self.rng.choice([self.rng.lognormal(0, 1), self.rng.uniform(0.05, 2), self.rng.gamma(2), float(self.rng.integers(1, 4))])) * scale


def run_once(o, seed, i, limit=60):
    rng = np.random.default_rng([seed, i, zlib.crc32(o.name.encode())])
    np.random.seed((seed * 100003 + i) % (2 ** 32))
    t = T(rng, i)

    def on_alarm(*a): raise TimeUp()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        o.fn(t)
        if o.sample is None: o.sample = {k: repr(v)[:160] for k, v in t.inputs.items()}
    except Violation as e:
        return dict(what=e.what, key=e.key, inputs={k: repr(v)[:1500] for k, v in (e.inputs or {}).items()})
    except Skip:
        return None
    except TimeUp:
        # a call that does not return within the limit is reported (the normal cost is milliseconds)
        return dict(what='no answer within %d s' % limit, key=None, inputs={k: repr(v)[:1500] for k, v in t.inputs.items()})
    except Exception as e:
        return dict(what='raised %s: %s' % (type(e).__name__, str(e)[:300]), key=None, inputs={k: repr(v)[:1500] for k, v in t.inputs.items()}, trace=traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    return None
