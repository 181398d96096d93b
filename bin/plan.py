"""Which explorations decide which property.

graph  a slice of the state graph of the specification (SolidGen)
table  an enumeration of request sequences (SolidTables)
random seeded random behaviours of the implementation
Every recorded behaviour is judged by TLC (SolidTrace).
"""


def g(*names):
    return [("graph", n) for n in names]


def t(*names):
    return [("table", n) for n in names]


def r(profiles, n=720, depth=25):
    return [("random", profiles, n, depth)]


# tables of SolidCases; the others are in SolidTables
CASES = ["pkj", "att", "verify", "sign", "encrypt", "jarm", "reqobj", "vt", "pkce", "pair", "tokens", "intro", "gen", "profile", "types", "rand", "randpar", "errors", "prover", "messages", "sdk", "sdkpar", "live", "livepar"]

STORES = ["stpar", "stcode", "stdev", "sttok", "stjti", "stcli"]

LIVEPAR = [("table", "livepar", "race")]

QUICK = {
    "A01": t("authz", "bind", "reg", "altered") + r("authz,mix"),
    "A02": t("scope") + r("authz,code"),
    "A03": g("par", "stpar") + t("conc", "race", "partimes", "scope", "reg", "altered", "faults") + r("authz,mix,mix~"),
    "A04": g("par") + t("bind", "partimes", "altered") + r("authz,mix"),
    "A05": g("par") + t("authz", "scope", "partimes", "altered", "faults") + r("authz,mix,code"),
    "B01": g("code", "stcode") + t("conc", "race", "codes", "scope", "gate", "altered", "faults") + r("code,mix,code!,code~"),
    "B02": g("code") + t("codes", "gate", "bind", "reg", "altered") + r("code,mix"),
    "B03": g("code") + t("codes", "scope", "altered", "faults") + r("code,mix,token"),
    "C01": g("device") + t("devices", "gate", "reg", "altered", "faults") + r("device,mix"),
    "C02": g("device", "stdev") + t("conc", "race", "devices", "altered", "faults") + r("device,mix,device!,device~"),
    "D01": g("token", "key") + t("refresh", "gate", "codes", "reg", "altered", "faults") + r("token,mix"),
    "D02": g("token", "key", "sttok") + t("conc", "race", "refresh", "altered", "faults") + r("token,token!,token~"),
    "D03": g("token", "sttok") + t("conc", "race", "refresh", "exchange", "gate", "reg", "altered", "faults") + r("token,mix,token~"),
    "D04": g("token", "key") + t("refresh", "exchange", "gate", "codes", "reg", "altered") + r("token,mix"),
    "D05": g("token", "key") + t("exchange", "reg", "altered", "faults") + r("token,mix"),
    "D06": g("key") + t("gate", "reg", "altered") + r("mix,token"),
    "D07": g("code", "device") + t("gate", "codes", "reg", "altered") + r("mix,code,device,token"),
    "D08": g("token", "key", "code") + t("exchange", "refresh", "altered") + r("token,mix,device"),
    "D09": t("faults", "altered", "authz", "gate") + r("mix!,token!,code!,device!,authz!,dpop!"),
    "D10": g("par", "code", "device", "token") + t("overlap", "devices", "exchange", "altered", "bind") + r("mix,token,code,device,authz", 1000),
    "E01": g("proof") + t("proofs", "prover") + LIVEPAR + r("dpop", 900),
    "E02": g("proof", "stjti") + t("conc", "race", "proofs") + r("dpop,dpop!,dpop~", 900),
    "F01": t("pkj", "live") + LIVEPAR,
    "F02": t("att", "live") + LIVEPAR,
    "G01": t("jarm", "live") + LIVEPAR,
    "G02": t("reqobj", "live") + LIVEPAR,
    "G03": t("verify", "sign", "pkj", "att", "jarm", "reqobj", "live") + LIVEPAR,
    "G04": t("vt", "live") + LIVEPAR,
    "G05": t("pkce"),
    "G06": t("pair") + LIVEPAR,
    "G07": t("tokens", "live") + LIVEPAR,
    "G08": t("intro", "live") + LIVEPAR,
    "G09": t("gen"),
    "G10": t("sign", "tokens", "live") + LIVEPAR,
    "G11": t("encrypt"),
    "H01": g("stpar", "stcode", "stdev", "sttok", "stjti", "stcli") + [("table", "race", "race"), ("table", "deep", "deep")],
    "I01": t("profile"),
    "J01": t("sdk") + [("table", "sdkpar", "race")],
    "K01": t("types"),
    "K02": t("rand") + [("table", "randpar", "race")],
    "K03": t("errors"),
    "M01": t("messages"),
    "L01": g("par", "code", "device", "token", "key") + t("authz", "gate", "codes", "devices", "refresh", "exchange", "faults", "altered", "reg", "pkj", "att") + r("mix,mix!,token,token!,code!,device!,authz!"),
    "E03": g("key") + t("refresh", "exchange", "codes", "devices", "altered") + r("token,mix,dpop"),
}


def thorough(plan):
    out = []
    for p in plan:
        if p[0] == "random":
            out += [("random", p[1], p[2] * 10, p[3]), ("random", p[1], p[2] * 3, 80)]
        else:
            out.append(p)
    return out


PLAN = {k: {"quick": v, "thorough": thorough(v)} for k, v in QUICK.items()}
PLAN["ALL"] = {"quick": g("par", "code", "device", "token", "key", "proof", *STORES)
               + t("authz", "scope", "bind", "partimes", "gate", "codes", "devices", "refresh", "exchange", "proofs", "overlap", "faults", "altered", "conc", "reg", *[c for c in CASES if c != "livepar"])
               + LIVEPAR + [("table", "race", "race"), ("table", "deep", "deep")] + r("mix,authz,code,device,token,dpop,mix!", 2000)}
# development: a single table or slice, e.g. bin/check =table:conc
for _k in ("graph", "table"):
    for _n in ("par", "code", "device", "token", "key", "proof", *STORES, "authz", "scope", "bind", "partimes", "gate", "codes", "devices", "refresh", "exchange",
               "proofs", "overlap", "faults", "altered", "conc", "race", "reg", *CASES):
        PLAN["=%s:%s" % (_k, _n)] = {"quick": [(_k, _n)]}
PLAN["=table:race"] = {"quick": [("table", "race", "race")]}
PLAN["=table:sdkpar"] = {"quick": [("table", "sdkpar", "race")]}
PLAN["=table:livepar"] = {"quick": [("table", "livepar", "race")]}
PLAN["=table:deep"] = {"quick": [("table", "deep", "deep")]}
PLAN["=table:race0"] = {"quick": [("table", "race")]}
for _p in ("mix", "authz", "code", "device", "token", "dpop"):
    for _x in ("", "!", "~"):
        PLAN["=random:%s%s" % (_p, _x)] = {"quick": r(_p + _x, 600), "thorough": r(_p + _x, 6000)}
