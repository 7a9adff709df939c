"""Inputs for the library functions (see spec/Calc.tla): random, with the boundaries of every type over-represented."""
import json, math, random

MAXT = 221818
MAXP = 65535383934512647000000000000
MINP = 15258932000000000000
E12, E24 = 10 ** 12, 10 ** 24
FACT = [1000049998750, 1000100000000, 1000200010000, 1000400060004, 1000800280056, 1001601200560, 1003204964963, 1006420201726,
        1012881622442, 1025929181080, 1052530684591, 1107820842005, 1227267017980, 1506184333421, 2268591246242, 5146506242525,
        26486526504348, 701536086265529]
DEC = dict(TokenAmount=(0, 256, 512), Liquidity=(5, 256, 512), SqrtPrice=(24, 128, 384), Percentage=(12, 128, 256),
           FeeGrowth=(28, 128, 256), FixedPoint=(12, 128, 192), SecondsPerLiquidity=(25, 128, 256))
SPACINGS = [1, 1, 1, 2, 3, 5, 7, 10, 10, 20, 60, 97, 100]
FEES = [0, 1, 10 ** 8, 5 * 10 ** 8, 3 * 10 ** 9, 10 ** 10, 10 ** 11, 2 * 10 ** 11, 5 * 10 ** 11, 10 ** 12 - 1, 10 ** 12]


def price(t):
    acc = E12
    for k in range(18):
        if abs(t) >> k & 1:
            acc = acc * FACT[k] // E12
    return (acc if t >= 0 else E12 * E12 // acc) * E12


def tick_of(p, sp):
    lo, hi = -MAXT, MAXT
    while lo < hi:
        m = lo + (hi - lo + 1) // 2
        if price(m) <= p:
            lo = m
        else:
            hi = m - 1
    return lo - lo % sp


class Gen:
    def __init__(self, seed, out):
        self.r = random.Random(seed)
        self.f = out
        self.n = 0

    def emit(self, f, a, **more):
        self.f.write(json.dumps(dict(f=f, a=[str(x) if type(x) is int and not isinstance(x, bool) else x.v if isinstance(x, I) else x for x in a], **more),
                                separators=(",", ":")) + "\n")
        self.n += 1

    # numbers of at most w bits
    def num(self, w, lo=0):
        r = self.r
        k = r.random()
        if k < 0.05:
            v = r.choice([0, 0, 1, 2, 3])
        elif k < 0.12:
            v = (1 << w) - 1 - r.choice([0, 0, 1, 2, 5, 1000])
        elif k < 0.2:
            v = 10 ** r.randint(0, int(w * 0.301)) + r.choice([-1, 0, 0, 1])
        elif k < 0.27:
            v = (1 << r.randint(0, w)) + r.choice([-1, 0, 1])
        else:
            b = r.randint(1, w)
            v = r.getrandbits(b)
        return max(lo, min((1 << w) - 1, v))

    def tick(self, sp=1):
        r = self.r
        m = MAXT // sp
        k = r.random()
        if k < 0.12:
            return r.choice([m, -m, m - 1, 1 - m, 0, 1, -1, m - 2, 2 - m]) * sp
        if k < 0.3:
            return r.randint(-40, 40) * sp
        if k < 0.5:
            return r.randint(-2000, 2000) // sp * sp
        return r.randint(-m, m) * sp

    def price(self):
        r = self.r
        k = r.random()
        if k < 0.08:
            return r.choice([MINP, MAXP, MINP + 1, MAXP - 1, E24, E24 + 1, E24 - 1])
        if k < 0.45:
            return max(MINP, min(MAXP, price(self.tick()) + r.choice([0, 0, 0, 1, -1, 2, 10 ** 12, -10 ** 12])))
        if k < 0.8:
            t = self.tick()
            p = price(t)
            q = price(min(MAXT, t + 1))
            return r.randint(p, max(p, q))
        return max(MINP, min(MAXP, 2 ** r.uniform(math.log2(MINP), math.log2(MAXP)).__trunc__() * r.randint(1, 10 ** 6) // 10 ** 6 + r.getrandbits(40)))

    def any_price(self):
        return self.price() if self.r.random() < 0.97 else self.r.choice([0, 1, MINP - 1, MAXP + 1, (1 << 128) - 1, self.num(128)])

    def bool(self):
        return self.r.random() < 0.5

    def fee(self):
        return self.r.choice(FEES) if self.r.random() < 0.6 else self.r.randint(0, E12)

    def liq(self):
        r = self.r
        k = r.random()
        if k < 0.06:
            return 0
        if k < 0.6:
            return r.getrandbits(r.randint(20, 120)) + 1
        return self.num(256)

    def amount(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return r.getrandbits(r.randint(1, 90))
        return self.num(256)

    def sp(self):
        return self.r.choice(SPACINGS)


class I:
    """an argument that stays a JSON integer"""
    def __init__(self, v):
        self.v = v


# ---- P27 --------------------------------------------------------------------------------------------
ONE_W = ["add", "sub", "add_assign", "sub_assign", "mul_assign", "div_assign", "checked_add", "checked_sub", "checked_div", "sub_abs"]
NUMBER = ["big_div_by_number", "big_div_by_number_up", "checked_big_div_by_number", "checked_big_div_by_number_up"]
TWO = ["mul", "mul_up", "div", "div_up", "big_mul", "big_mul_up", "big_div", "big_div_up", "checked_big_div", "big_mul_to_value",
       "big_mul_to_value_up", "from_decimal", "checked_from_decimal", "from_decimal_up", "to_value"]
WIDTHS = {"128w": 128, "192": 192, "256": 256, "320": 320, "384": 384, "448": 448, "512": 512}


def dec(g, n):
    r = g.r
    types = list(DEC)
    for t in types:
        for op in ("one", "almost_one", "max"):
            g.emit("dec", [op, t, 0, 0])
    for k in range(n):
        t = r.choice(types)
        s, w, big = DEC[t]
        p = g.num(w)
        m = r.random()
        if m < 0.3:
            op = r.choice(ONE_W)
            q = g.num(w)
            if r.random() < 0.25:      # around the limit of the sum or the product
                q = (1 << w) - 1 - p + r.choice([-1, 0, 1]) if "add" in op else ((1 << w) // max(p, 1) + r.choice([-1, 0, 1]))
                q = max(0, min((1 << w) - 1, q))
            g.emit("dec", [op, t, p, q])
        elif m < 0.4:
            op = r.choice(["from_scale", "from_scale_up", "checked_from_scale", "from_scale_to_value"])
            g.emit("dec", [op, t, p if r.random() < 0.6 else p % 10 ** r.randint(1, 30), I(r.randint(0, 42) if r.random() < 0.85 else r.randint(0, 120))])
        elif m < 0.45:
            g.emit("dec", ["from_integer", t, p if r.random() < 0.5 else p // 10 ** s, 0])
        elif m < 0.47:
            g.emit("dec", ["is_zero", t, p, 0])
        elif m < 0.57:
            op = r.choice(NUMBER)
            q = g.num(big)
            if r.random() < 0.3:
                q = (p * 10 ** s >> w) + r.choice([0, 1, 1, 2])
            if "checked" not in op and q == 0 and r.random() < 0.5:
                q = 1
            g.emit("dec", [op, t, p, q])
        else:
            op = r.choice(TWO)
            u = r.choice(types)
            su, wu, _ = DEC[u]
            q = g.num(wu)
            z = r.random()
            if z < 0.2 and p:          # around the limit of the product
                q = min((1 << wu) - 1, ((1 << w) * (10 ** su if "big" in op else 1)) // p + r.choice([-1, 0, 1]))
                q = max(q, 0)
            elif z < 0.4:
                q = min((1 << wu) - 1, g.num(64) * 10 ** su)
            if r.random() < 0.3:
                p, q = p % (1 << r.randint(1, w)), q % (1 << r.randint(1, wu))
            g.emit("dec", [op, t, p, q, u])
    names = list(WIDTHS)
    for k in range(n // 4):
        a = r.choice(names)
        v = g.num(WIDTHS[a])
        z = r.random()
        if z < 0.2:
            w = r.choice([8, 16, 32, 64, 128])
            if r.random() < 0.5:
                v %= 1 << (w + 1)
            g.emit(r.choice(["cast", "checked_cast"]) if v < 1 << w else "checked_cast", [a + "", str(w) + "", v, I(WIDTHS[a]), I(w)])
        elif z < 0.35:
            g.emit("cast", ["prim", a, v % (1 << 128), I(128), I(WIDTHS[a])])
        else:
            b = r.choice([x for x in names if x != a])
            if r.random() < 0.4:
                v = max(0, min((1 << WIDTHS[a]) - 1, (1 << WIDTHS[b]) + r.choice([-2, -1, 0, 1])))
            g.emit(r.choice(["cast", "checked_cast"]) if v < 1 << WIDTHS[b] else "checked_cast", [a, b, v, I(WIDTHS[a]), I(WIDTHS[b])])


# ---- P21 --------------------------------------------------------------------------------------------
def ticks(g, n, full):
    """all ticks (or an eighth of them) in both libraries, and random prices"""
    r = g.r
    step = 500
    blocks = list(range(-MAXT, MAXT + 1, step))
    keep = blocks if full else blocks[:2] + r.sample(blocks[2:-2], len(blocks) // 8) + blocks[-2:] + [b for b in blocks if b <= 0 < b + step]
    for b in keep:
        g.emit("sqrt_prices", [I(b), I(min(MAXT, b + step - 1))])
    for b in (blocks if full else keep):
        size = step if full else step // 4
        o = 0 if full else r.randint(0, step - size)
        lo = b + o
        g.emit("ticks_at", [I(min(lo, MAXT)), I(min(MAXT, lo + size - 1)), I(1 if r.random() < 0.4 else g.sp())])
    for t in (MAXT + 1, -MAXT - 1, MAXT + 100, -MAXT - 100, 2 ** 31 - 1, -2 ** 31 + 1, 300000, -300000):
        g.emit("sqrt_price", [I(t)])
    for k in range(n):
        g.emit("tick_at", [g.any_price(), I(g.sp())])
    for s in range(1, 101):
        for f in ("max_tick", "min_tick", "max_price", "min_price", "max_chunk"):
            g.emit(f, [I(s)])
    g.emit("consts", [])
    for k in range(n // 4):
        s = g.sp()
        t = g.tick(s) if r.random() < 0.8 else r.randint(-MAXT, MAXT)
        g.emit("check_tick", [I(t), I(s)])
        u = t + r.choice([0, s, -s, 5 * s, 1])
        g.emit("check_ticks", [I(t), I(u), I(s)])
        t = g.tick(s)
        p = price(t)
        if r.random() < 0.6:
            q = price(min(MAXT, t + s))
            p = r.choice([p, p - 1, p + 1, q, q - 1, q + 1, r.randint(p, max(p, q)), price(MAXT // s * s)])
        else:
            p = g.price()
        g.emit("price_in_tick", [I(t), I(s), max(0, p)])
        g.emit("search_limit", [I(t), I(s), g.bool()])
        t = t if r.random() < 0.9 else t + 1
        if abs(t) <= MAXT and t % s == 0:
            g.emit("tick_pos", [I(t), I(s)])
            c = (t + MAXT) // s
            g.emit("pos_tick", [I(c // 64), I(c % 64), I(s)])


# ---- P26 --------------------------------------------------------------------------------------------
def span(g):
    r = g.r
    s = g.sp()
    m = MAXT // s
    k = r.random()
    if k < 0.1:
        lo, up = -m, m
    elif k < 0.6:
        lo = g.tick(s) // s
        up = min(m, lo + r.choice([1, 1, 2, 5, 20, 100, 1000, 20000]))
        lo = max(-m, min(lo, up - 1))
    else:
        lo, up = sorted(r.sample(range(-m, m + 1), 2))
    lo, up = lo * s, up * s
    k = r.random()
    pl, pu = price(lo), price(up)
    p = r.choice([pl, pu, pl - 1, pl + 1, pu - 1, pu + 1]) if k < 0.25 else r.randint(pl, pu) if k < 0.75 else g.price()
    return lo, up, max(MINP, min(MAXP, p)), s


def liq(g, n):
    r = g.r
    for k in range(n):
        lo, up, p, s = span(g)
        if r.random() < 0.03:
            lo, up = r.choice([(up, lo), (lo, lo), (lo, MAXT + 1), (-MAXT - 1, up)])
        f = r.choice(["liq_x", "liq_y", "liq_both"])
        if r.random() < 0.06:
            p = g.any_price()
        if f == "liq_both":
            x, y = g.amount(), g.amount()
            if r.random() < 0.4:
                y = min((1 << 256) - 1, max(0, x * r.randint(1, 1000) // r.randint(1, 1000)))
            if r.random() < 0.2:
                # both amounts from the same liquidity
                L = r.getrandbits(r.randint(30, 110))
                pl, pu = price(lo) if abs(lo) <= MAXT else MINP, price(up) if abs(up) <= MAXT else MAXP
                if pl < p < pu:
                    x = L * (pu - p) * E24 // (p * pu) // 10 ** 5
                    y = L * (p - pl) // E24 // 10 ** 5
                    x, y = max(0, x + r.randint(-1, 1)), max(0, y + r.randint(-1, 1))
            g.emit(f, [x, y, I(lo), I(up), p, g.bool()], only="c")
        else:
            g.emit(f, [g.amount(), I(lo), I(up), p, g.bool()])


# ---- P22, P24 (and the local rules of P03, P06, P07, P08, P10, P28) --------------------------------------
def swap_steps(g, n, only=None):
    r = g.r
    more = dict(only=only) if only else {}
    for k in range(n):
        cur = g.price()
        t = tick_of(cur, 1)
        if r.random() < 0.75:
            tgt = price(max(-MAXT, min(MAXT, t + r.choice([-1, 0, 1, 2, -2, 10, -10, 256, -256, r.randint(-5000, 5000)]))))
        else:
            tgt = g.price()
        if r.random() < 0.05:
            tgt = cur
        L = g.liq()
        fee = g.fee()
        by = g.bool()
        amt = g.amount()
        if r.random() < 0.55 and L:
            # about what it takes to reach the target
            a, b = min(cur, tgt), max(cur, tgt)
            x = L * (b - a) * E24 // (a * b) // 10 ** 5
            y = L * (b - a) // E24 // 10 ** 5
            v = x if (tgt < cur) == by else y
            if by and fee < E12:
                v = v * E12 // (E12 - fee)
            amt = max(0, min((1 << 256) - 1, v + r.choice([0, 1, -1, 2, 3, -v // 2, v, v // 100])))
        z = r.random()
        if z < 0.6:
            g.emit("swap_step", [cur, tgt, L, amt, by, fee], **more)
        elif z < 0.7:
            g.emit("delta_x", [cur, tgt, L, g.bool()], **more)
        elif z < 0.8:
            g.emit("delta_y", [cur, tgt, L, g.bool()], **more)
        elif z < 0.9:
            g.emit("next_x", [cur, L, amt, by], **more)
        else:
            g.emit("enough", [amt, cur, L, fee, by, g.bool()], **more)


def growths(g, n, only=None):
    r = g.r
    more = dict(only=only) if only else {}
    for k in range(n):
        z = r.random()
        if z < 0.1:
            g.emit(r.choice(["growth_add", "growth_sub", "spl_add", "spl_sub"]), [g.num(128), g.num(128)], **more)
        elif z < 0.35:
            L, fee = g.liq(), g.amount()
            if r.random() < 0.3:
                fee = min((1 << 256) - 1, max(0, (L << 128) // 10 ** 33 + r.choice([-1, 0, 1])))
            g.emit("growth_of", [L, fee], **more)
        elif z < 0.6:
            g.emit("fee_of", [g.num(128), g.liq()], **more)
        elif z < 0.8:
            lo, up, p, s = span(g)
            t = r.choice([lo, up, lo - s, up - s, up + s, (lo + up) // 2, g.tick(s)])
            g.emit("inside", [I(lo), g.num(128), g.num(128), I(up), g.num(128), g.num(128), I(t), g.num(128), g.num(128)], **more)
        elif z < 0.9:
            a = g.num(40)
            g.emit("spl_global", [g.liq(), a + r.choice([0, 1, 1000, 10 ** 6, -1 if a else 0, g.num(50)]), a], **more)
        else:
            lo, up, p, s = span(g)
            t = r.choice([lo, up, lo - s, up - s, g.tick(s)])
            g.emit("spl_inside", [I(lo), I(up), I(t), g.num(128), g.num(128), g.num(128)], **more)


def amounts(g, n, only=None):
    r = g.r
    more = dict(only=only) if only else {}
    for k in range(n):
        lo, up, p, s = span(g)
        t = tick_of(p, s)
        if r.random() < 0.1:
            t = r.choice([lo, up, t - s])
        if r.random() < 0.04:
            lo, up = r.choice([(up, lo), (lo, lo)])
        L = g.liq()
        g.emit("amount_delta", [I(t), p, L, g.bool(), I(up), I(lo)], **more)


def sdk(g, n):
    """the SDK's own calculators"""
    r = g.r
    for k in range(n):
        lo, up, p, s = span(g)
        t = tick_of(p, s)
        if r.random() < 0.3:
            t = r.choice([lo, up, lo - s, up - s])
        G = [g.num(128) for _ in range(8)]
        L = g.liq()
        z = r.random()
        if z < 0.5:
            if z < 0.2:        # what a pool's history produces: the counters wrap, the inside growth is moderate
                w = 1 << 128
                gx, gy = r.getrandbits(100), r.getrandbits(100)
                G[4], G[5] = (G[0] + gx) % w, (G[1] + gy) % w
                G[6] = (G[6] if r.random() < 0.3 else G[4] - G[0] - r.getrandbits(90)) % w
                G[7] = (G[7] if r.random() < 0.3 else G[5] - G[1] - r.getrandbits(90)) % w
                L = r.getrandbits(r.randint(10, 150))
            g.emit("position_fee", [I(lo), G[0], G[1], I(up), G[2], G[3], I(t), G[4], G[5], G[6], G[7], L], only="s")
        elif z < 0.7:
            g.emit("min_out", [g.amount(), g.fee() if r.random() < 0.9 else g.num(128)])
        elif z < 0.75:
            a, b = r.randint(1, 9), r.randint(1, 9)
            g.emit("is_token_x", [I(a), I(b)], only="s")
        elif z < 0.8:
            g.emit("pool_key", [I(r.randint(1, 9)), I(r.randint(1, 9))])
        elif z < 0.85:
            g.emit("fee_tier", [g.fee() if r.random() < 0.8 else g.num(128), I(r.choice([0, 1, 2, 50, 99, 100, 101, 1000, 65535]))])
        elif z < 0.9:
            t = g.tick(s) + (1 if r.random() < 0.2 else 0)
            if abs(t) <= MAXT:
                g.emit("tick_pos", [I(t), I(s)], only="s")
        elif z < 0.95:
            g.emit("max_liq", [I(s)])
        else:
            c = r.randint(0, 2 * (MAXT // s))
            g.emit("pos_tick", [I(c // 64), I(c % 64), I(s)])
    g.emit("max_steps", [], only="s")
    g.emit("consts", [])
    for s in range(1, 101):
        for f in ("max_tick", "min_tick", "max_price", "min_price", "max_chunk", "max_liq"):
            g.emit(f, [I(s)])


def tickmap(g, n):
    r = g.r
    for k in range(n):
        s = g.sp()
        m = MAXT // s
        at = g.tick(s) // s
        T = set()
        for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
            d = r.choice([0, 0, 1, -1, 62, 63, 64, 65, -62, -63, -64, -65, 255, 256, 257, -255, -256, -257, r.randint(-300, 300), r.randint(-m, m)])
            if -m <= at + d <= m:
                T.add((at + d) * s)
        if r.random() < 0.15:
            T |= {r.choice([-m, m]) * s}
        T = sorted(T)
        t = at * s
        z = r.random()
        if z < 0.35:
            g.emit("next_init", [T, I(t), I(s)])
        elif z < 0.7:
            g.emit("prev_init", [T, I(t), I(s)])
        elif z < 0.9:
            xy = g.bool()
            lim = r.choice([MINP if xy else MAXP, price(max(-MAXT, min(MAXT, t + s * r.randint(-260, 260)))), g.price()])
            if r.random() < 0.2 and T:
                lim = price(r.choice(T))
            g.emit("closer", [T, lim, xy, I(t), I(s)])
        else:
            gone = [x for x in T if r.random() < 0.4]
            g.emit("map_get", [T, gone, I(r.choice(T) if T and r.random() < 0.7 else t), I(s)])


def pool(g, t=None, s=None, p=None):
    r = g.r
    s = s or g.sp()
    if p is None:
        t = g.tick(s) if t is None else t
        a, b = price(t), price(min(MAXT, t + s))
        p = r.choice([a, a, r.randint(a, b), b - 1 if b > a else b, b])
    st = r.getrandbits(40)
    small = r.random() < 0.7
    return dict(liq=str(g.liq() if not small else r.getrandbits(r.randint(20, 120))), sp=str(p), tick=t, fgx=str(g.num(128)), fgy=str(g.num(128)),
                fpx=str(g.num(256) if not small else r.getrandbits(80)), fpy=str(g.num(256) if not small else r.getrandbits(80)),
                st=str(st), lt=str(st + r.getrandbits(20)), rcv="r"), s


def tickrec(g, i, cap=None):
    r = g.r
    gr = g.num(256) if r.random() < 0.3 else r.getrandbits(r.randint(20, 130))
    ch = gr if r.random() < 0.4 else r.randint(0, gr)
    return dict(i=i, sign=True if ch == 0 else g.bool(), ch=str(ch), gr=str(gr), sp=str(price(i)), fox=str(g.num(128)), foy=str(g.num(128)), so=str(r.getrandbits(r.randint(1, 64))))


def storage(g, n, kinds):
    """the contract's pool, tick and position functions"""
    r = g.r
    for k in range(n):
        f = r.choice(kinds)
        s = g.sp()
        m = MAXT // s
        P, s = pool(g, s=s)
        ts = str(int(P["st"]) + r.getrandbits(30))
        if f == "pool_new":
            t = g.tick(s)
            p = r.choice([price(t), price(t) + 1, price(t) - 1, price(min(MAXT, t + s)) - 1, price(min(MAXT, t + s)), g.price()])
            if abs(t) <= MAXT:
                g.emit(f, [p, I(t), P["st"], I(s)], only="c")
        elif f == "tick_new":
            t = P["tick"] + s * r.choice([0, 1, -1, 2, -5]) if r.random() < 0.7 else g.tick(s)
            if abs(t) <= MAXT:
                g.emit(f, [I(t), P, ts], only="c")
        elif f == "tick_cross":
            t = tickrec(g, max(-m, min(m, P["tick"] // s + r.choice([0, 1, -1, 3]))) * s)
            if r.random() < 0.3:
                P["liq"] = str(max(0, min((1 << 256) - 1, int(t["ch"]) + r.choice([-1, 0, 1]))))
            elif r.random() < 0.3:
                P["liq"] = str(max(0, (1 << 256) - 1 - int(t["ch"]) + r.choice([-1, 0])))
            g.emit(f, [t, P, ts], only="c")
        elif f == "tick_update":
            t = tickrec(g, g.tick(s))
            cap = ((1 << 256) - 1) // ((2 * MAXT + 1) // s)
            d = g.liq()
            if r.random() < 0.35:
                d = max(0, cap - int(t["gr"]) + r.choice([-2, -1, 0, 1]))
            elif r.random() < 0.2:
                d = r.choice([int(t["gr"]), int(t["ch"]), min((1 << 256) - 1, int(t["gr"]) + 1)])
            g.emit(f, [t, d, g.bool(), g.bool(), I(s)], only="c")
        elif f == "add_fee":
            g.emit(f, [P, g.amount(), g.bool(), g.fee()], only="c")
        elif f == "withdraw_fee":
            g.emit(f, [P], only="c")
        else:
            lo = P["tick"] // s + r.choice([0, 1, -1, -5, 5, -300])
            lo = max(-m, min(m - 1, lo))
            up = max(lo + 1, min(m, lo + r.choice([1, 1, 2, 5, 10, 600])))
            tl, tu = tickrec(g, lo * s), tickrec(g, up * s)
            d = g.liq()
            if r.random() < 0.6:
                tl.update(gr=str(int(tl["gr"]) % (1 << 100) + 1))
                tl.update(ch=str(min(int(tl["ch"]), int(tl["gr"]))))
                tu.update(gr=str(int(tu["gr"]) % (1 << 100) + 1))
                tu.update(ch=str(min(int(tu["ch"]), int(tu["gr"]))))
                d = r.getrandbits(r.randint(10, 90))
            q = dict(liq=str(g.liq() if r.random() < 0.3 else r.getrandbits(90)), fix=str(g.num(128)), fiy=str(g.num(128)),
                     ox=str(g.num(256) if r.random() < 0.1 else r.getrandbits(60)), oy=str(g.num(256) if r.random() < 0.1 else r.getrandbits(60)))
            if r.random() < 0.6:
                # counters as a history leaves them: little growth since
                w = 1 << 128
                for c, o, gl in (("fix", "fox", "fgx"), ("fiy", "foy", "fgy")):
                    G, a, b = int(P[gl]), int(tl[o]), int(tu[o])
                    below = a if P["tick"] >= lo * s else G - a
                    above = b if P["tick"] < up * s else G - b
                    q[c] = str((G - below - above - r.getrandbits(r.randint(1, 100))) % w)
            if f == "remove":
                L = int(q["liq"])
                if r.random() < 0.8:
                    tl["gr"], tu["gr"] = (str(max(int(x["gr"]), L) if r.random() < 0.6 else L) for x in (tl, tu))
                    if int(P["liq"]) < L:
                        P["liq"] = str(min((1 << 256) - 1, L + r.getrandbits(20)))
            if f == "create":
                p = int(P["sp"])
                a, b = (r.choice([0, p, p - 1]), r.choice([p, p + 1, (1 << 128) - 1])) if r.random() < 0.85 else (r.choice([p + 1, p]), r.choice([p - 1, p]))
                g.emit(f, [P, tl, tu, P["st"] if r.random() < 0.1 else ts, d, a, b, I(s)], only="c")
            else:
                g.emit(f, [q, P, tl, tu, d, g.bool(), ts, I(s)], only="c")


# ---- P23: pools as their histories leave them, for the simulation of a swap -----------------------------
def simulations(g, n):
    r = g.r
    for k in range(n):
        s = g.sp()
        m = MAXT // s
        shape = r.random()
        # positions -> ticks
        c = g.tick(s) // s if shape < 0.3 else r.randint(-200, 200)
        ticks = {}
        many = r.random() < 0.06
        pos = []
        big = r.getrandbits(r.randint(20, 100)) + 1
        for _ in range(r.choice([1, 1, 2, 3, 6]) if not many else 1):
            lo = max(-m, min(m - 1, c + r.randint(-40, 5)))
            up = min(m, max(lo + 1, c + r.randint(-5, 40)))
            if r.random() < 0.15:
                lo, up = max(-m, c - r.choice([300, 2000, 100000])), min(m, c + r.choice([300, 2000, 100000]))
            pos.append((lo, up, big * r.randint(1, 1000) // r.choice([1, 1, 100])))
        if many:
            d = r.choice([1, 1, 2])
            for j in range(r.choice([60, 141, 142, 143, 150, 170])):
                x = c + r.choice([1]) * d * j
                if -m <= x < m:
                    pos.append((x, min(m, x + d), r.randint(1, 1000) * big // 1000 + 1))
            if r.random() < 0.5:
                pos = [(max(-m, 2 * c - b), min(m, 2 * c - a), l) for a, b, l in pos if 2 * c - b < 2 * c - a]
                pos = [q for q in pos if q[0] < q[1]]
        for lo, up, l in pos:
            for t, sg in ((lo, 1), (up, -1)):
                ticks[t] = (ticks.get(t, (0, 0))[0] + sg * l, ticks.get(t, (0, 0))[1] + l)
        # the price: inside a spacing, on a tick crossed upwards, or on one crossed downwards
        at = c if r.random() < 0.5 or not ticks else r.choice(list(ticks)) + r.choice([0, 0, 1, -1])
        at = max(-m + 1, min(m - 1, at))
        a, b = price(at * s), price(min(MAXT, (at + 1) * s))
        p = r.choice([a, a, r.randint(a, b), b - 1, r.randint(a, b)])
        cur = at
        if p == a and r.random() < 0.5 and at in ticks:
            cur = at - 1
        L = sum(l for lo, up, l in pos if lo <= cur < up)
        P = dict(liq=str(L), sp=str(p), tick=cur * s, fgx=str(r.getrandbits(100)), fgy=str(r.getrandbits(100)), fpx="0", fpy="0", st="0", lt="5", rcv="r")
        T = [dict(i=t * s, sign=v[0] >= 0, ch=str(abs(v[0]))) for t, v in sorted(ticks.items())]
        for t in T:
            if t["ch"] == "0":
                t["sign"] = True
        xy = g.bool()
        by = g.bool()
        z = r.random()
        # sizes relative to what a spacing or the whole range takes
        unit = max(1, big * max(1, b - a) // 10 ** 29)
        amt = r.choice([0, 1, 2, 3, r.getrandbits(80), g.num(256)]) if z < 0.15 else unit * r.randint(1, 10 ** 6) // r.choice([10 ** 6, 10 ** 4, 1000, 100]) + r.randint(0, 3)
        if many:
            amt = unit * r.randint(10, 10 ** 4)
        z = r.random()
        lim = MINP if xy else MAXP
        if z < 0.3:
            tt = at * s + (-1 if xy else 1) * s * r.choice([0, 1, 2, 10, 30])
            lim = price(max(-MAXT, min(MAXT, tt))) + r.choice([0, 0, 1, -1])
        elif z < 0.36:
            lim = r.choice([p, p + 1, p - 1, MINP, MAXP, 0, (1 << 128) - 1, MINP - 1, MAXP + 1])
        miss = [] if r.random() < 0.85 else [x["i"] for x in T if r.random() < 0.4]
        fee = r.choice(FEES[:8]) if r.random() < 0.9 else g.fee()
        g.emit("simulate", [P, T, fee, I(s), xy, amt, by, max(0, lim), miss], only="s")


# ---- records taken from histories of the contract: the same swap simulated, the same fees calculated ----------
def from_histories(g, path, sims=True, fees=True):
    n = 0
    for line in open(path):
        t = json.loads(line)
        pools, ticks, pos = {}, {}, {}
        for s in t["steps"]:
            if sims and (s["op"] == "quote" or (s["op"] == "swap" and s.get("out") == "ok")) and s.get("pool") in pools:
                P = pools[s["pool"]]
                fee, sp = s["pool"].split("/")[2:4]
                T = [dict(i=i, sign=x["sign"], ch=x["ch"]) for i, x in sorted(ticks.get(s["pool"], {}).items())]
                res = s.get("res")
                if s.get("out") == "ok" and isinstance(res, dict) and "out" in res:
                    w = dict(out="ok", o=res["out"], s1=res["s1"], idx=[x["i"] if isinstance(x, dict) else x for x in res["ticks"]])
                    w["in"] = res["in"]
                elif s.get("out") in ("ok", "fail"):
                    w = dict(out="fail")
                else:
                    w = None
                if w:
                    g.emit("simulate", [P, T, fee, I(int(sp)), s["xy"], s["amt"], s["in"], s["lim"], []], only="s", want=w)
                    n += 1
            if fees and s["op"] == "claim" and s.get("out") == "ok":
                q = pos[s["who"]][s["i"]]
                P, lo, up = pools[q["pool"]], ticks[q["pool"]][q["lo"]], ticks[q["pool"]][q["up"]]
                g.emit("position_fee", [I(lo["i"]), lo["fox"], lo["foy"], I(up["i"]), up["fox"], up["foy"], I(P["tick"]), P["fgx"], P["fgy"],
                                        q["fix"], q["fiy"], q["liq"]], only="s", want=s["res"])
                n += 1
            d = s.get("d", {})
            for k, v in d.get("pools", {}).items():
                pools[k] = v
            for k, v in d.get("ticks", {}).items():
                m = ticks.setdefault(k, {})
                for x in v["del"]:
                    m.pop(x, None)
                for x in v["set"]:
                    m[x["i"]] = x
            pos.update(d.get("pos", {}))
    return n
