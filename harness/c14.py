"""C14 times"""
import datetime
US = 86400 * 10**6
LO, HI = -719528 * US, (3652425 - 719528) * US       # 0000-01-01 .. 9999-12-31 end (exclusive)
def run(c):
    r = c.rng
    cases = []
    P = lambda v, w: (v % (1 << 8 * w)).to_bytes(w, "little")
    yrs = "{1896, 1969, 1999, 2037, 2099, 2105}" if not c.thorough() else "{0, 96, 396, 1580, 1899, 1968, 1999, 2035, 2096, 2399, 9990}"
    days = c.mc("MC_Time", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Agree RoundTrip\nCONSTANTS Span = %d Starts0 = %s\n" % (c.pick(800, 3000), yrs))
    us = [0, -1, 1, 999, 1000, -1000, LO, LO + 1, HI - 1, HI - 1000, (2**32 - 1) * 10**6, 2**32 * 10**6, 2**31 * 10**6, 2**31 * 10**6 - 1, 946684800 * 10**6, 946684800 * 10**6 - 1, 2**63 - 1, -2**63]
    for x in days:
        base = x["n"] * US
        us += [base, base - 1] + [base + r.randrange(US)]
    for _ in range(c.pick(800, 20000)): us.append(r.choice([r.randrange(LO, HI), r.randrange(0, 2**32 * 10**6), r.randrange(0, 2**32) * 10**6 + r.choice([0, 999999, 500000, 499999, 500, 1])]))
    texts = []
    for v in us:
        cases.append(("tp_print", [P(v, 8)]))
        if 0 <= v < 2**32 * 10**6: cases += [("tps_print", [P(v // 10**6, 4)]), ("tps_conv", [P(v // 10**6, 4)])]
        if r.random() < .6: cases.append(("tp_conv", [P(v, 8)]))
        if r.random() < .25: cases.append(("time_abi", [b"time_point", P(v, 8)]))
        if r.random() < .3: cases.append(("tp_arith", [P(v // 4, 8), P(r.choice(us) // 4, 8)]))
        if LO <= v < HI:
            t = iso(v)
            texts.append(r.choice([t, t, t[:19], t[:20] + t[20:r.randrange(20, 27)], t + "%d" % r.randrange(10), t[:20] + "%012d" % r.randrange(10**12)]))
    for v in [0, 1, 2**32 - 1, 2**31, 2**31 - 1] + [r.getrandbits(32) >> r.randrange(0, 32) for _ in range(c.pick(300, 5000))]:
        cases += [("bt_print", [P(v, 4)]), ("bt_conv", [P(v, 4)]), ("bt_next", [P(v, 4)]), ("tps_print", [P(v, 4)]), ("tps_conv", [P(v, 4)]),
                  ("time_abi", [b"time_point_sec", P(v, 4)]), ("time_abi", [b"block_timestamp_type", P(v, 4)])]
    base = "2019-04-12T23:59:58.123456"
    for i in range(len(base) + 1):
        texts += [base[:i], base[:i] + base[i + 1:]]
        for ch in "0-T:. Z/+a": texts += [base[:i] + ch + base[i + 1:], base[:i] + ch + base[i:]]
    texts += ["2000-02-29T00:00:00", "1900-02-28T23:59:59.999", "2100-02-28T23:59:59.9", "2106-02-07T06:28:15", "2106-02-07T06:28:16", "2106-02-07T06:28:15.999", "1969-12-31T23:59:59.999", "1970-01-01T00:00:00", "0000-01-01T00:00:00",
              "9999-12-31T23:59:59.999", "2068-01-19T03:14:07.5", "2068-01-19T03:14:08", "2000-01-01T00:00:00", "2000-01-01T00:00:00.499", "2000-01-01T00:00:00.5", "2018-06-15T19:17:47.", "2018-06-15T19:17:47.1234567", "2018-06-15 19:17:47", "2018-06-15t19:17:47"]
    for _ in range(c.pick(200, 3000)):
        t = list(iso(r.randrange(0, 2**32 * 10**6))[:r.randrange(19, 27)])
        t[r.randrange(len(t))] = chr(r.choice([48, 57, 47, 58, 45, 46, 84, 32, 65]))
        texts.append("".join(t))
    for t in texts:
        b = t.encode()
        for op in ("tp_parse", "tps_parse", "tp_json", "tps_json", "bt_json"):
            if r.random() < .7: cases.append((op, [b]))
    c.conform(["times.cpp"], "T_Time", "TimeJudge", cases)
    return c.finish("a day-by-day calendar model walked by TLC over %d days from each of several year borders (all month borders become cases), plus boundary and random instants, and single-edit mutations of texts" % c.pick(800, 3000))
def iso(v):
    d, t = divmod(v, US); n = d + 719528
    # own calendar: proleptic, year 0 leap
    y, k = divmod(n, 146097); y *= 400
    while True:
        ly = 366 if (y % 4 == 0 and y % 100) or y % 400 == 0 else 365
        if k < ly: break
        k -= ly; y += 1
    ml = [31, 29 if ly == 366 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]; m = 0
    while k >= ml[m]: k -= ml[m]; m += 1
    s, f = divmod(t, 10**6)
    return "%04d-%02d-%02dT%02d:%02d:%02d.%06d" % (y, m + 1, k + 1, s // 3600, s // 60 % 60, s % 60, f)
