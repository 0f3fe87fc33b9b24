"""A register machine over the real library: operations read and write shared registers, and every logged event carries
the projection of all registers after the call (so changed operands are visible to the trace specification)."""
import check


class Machine:
    def __init__(self, rec, n, init, encode, keep=lambda v, res: True):
        self.rec, self.n, self.init, self.encode, self.keep = rec, n, init, encode, keep
        self.regs = [init() for _ in range(n)]

    def op(self, name, fn, dst=0, encode=None, **fields):
        rec = self.rec
        if rec.dead:
            return None
        encode = encode or self.encode
        e = {'op': name, 'sid': rec.sess}
        exc, res, raw, ok = '', '', None, False
        check.arm()
        try:
            try:
                raw = fn()
                res = check.clean(encode(raw))
                ok = True
            finally:
                check.disarm()
        except check.OpTimeout:
            exc = 'Timeout'
            rec.dead = True
        except Exception as ex:
            exc = (type(ex).__name__ + ': ' + str(ex)[:120]).encode('ascii', 'replace').decode().replace('"', "'")
        if not (ok and dst and self.keep(raw, res)):
            dst = 0
        if dst:
            self.regs[dst - 1] = raw
        e.update(check.clean(fields))
        e.update(dst=dst, exc=exc, res=res)
        regs = []
        for i, r in enumerate(self.regs):
            try:
                regs.append(check.clean(self.encode(r)))
            except Exception:
                e['exc'] = e['exc'] or 'operand no longer readable'
                self.regs[i] = self.init()
                regs.append(check.clean(self.encode(self.regs[i])))
        e['regs'] = regs
        rec.write(e)
        return raw if ok else None
