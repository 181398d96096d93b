#!/usr/bin/env python3
"""spec/messages.json: the messages, enumerations and services declared by /repo/proto, for Messages.tla.

Run by hand when the contract changes; the result is committed (the checks do not read the .proto files)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
msgs, enums, svcs = {}, {}, {}
SCALARS = {"string", "bytes", "bool", "uint64", "fixed64", "uint32", "int32", "int64"}
raw = []
for f in sorted(glob.glob("/repo/proto/oidc/**/*.proto", recursive=True)):
    text = re.sub(r"//[^\n]*", "", open(f).read())
    pkg = re.search(r"package ([\w.]+);", text).group(1)
    for kind, name, start in [(m.group(1), m.group(2), m.end()) for m in re.finditer(r"\b(message|enum|service) (\w+) *\{", text)]:
        depth, i = 1, start
        while depth:
            depth += {"{": 1, "}": -1}.get(text[i], 0)
            i += 1
        body = text[start:i - 1]
        raw.append((kind, pkg, name, body))
known = {p + "." + n for k, p, n, _ in raw if k in ("message", "enum")}
isenum = {p + "." + n for k, p, n, _ in raw if k == "enum"}


def camel(n):
    return re.sub(r"_(.?)", lambda m: m.group(1).upper(), n)


def resolve(t, pkg):
    t = t.lstrip(".")
    for c in (t, pkg + "." + t):
        if c in known:
            return c
    raise SystemExit("unknown type " + t)


for kind, pkg, name, body in raw:
    full = pkg + "." + name
    if kind == "enum":
        enums[full] = [{"n": a, "no": int(b)} for a, b in re.findall(r"(\w+) *= *(\d+)", body)]
    elif kind == "service":
        svcs[full] = [{"n": a, "in": resolve(b, pkg), "out": resolve(c, pkg)} for a, b, c in re.findall(r"rpc (\w+)\(([\w.]+)\) returns \(([\w.]+)\)", body)]
    else:
        fields = []
        one = re.search(r"oneof (\w+) *\{([^}]*)\}", body)
        rest = body.replace(one.group(0), "") if one else body
        for src, of in ((rest, ""), (one.group(2) if one else "", one.group(1) if one else "")):
            for mp, label, typ, n, no in re.findall(r"(map<string, string>)?(?:(optional|repeated) )?((?:\.?\w+(?:\.\w+)*)?) +(\w+) *= *(\d+);", src):
                if mp:
                    fields.append({"n": n, "no": int(no), "js": camel(n), "k": "map", "t": "", "p": "map", "of": ""})
                    continue
                k = typ if typ in SCALARS else ("enum" if resolve(typ, pkg) in isenum else "message")
                fields.append({"n": n, "no": int(no), "js": camel(n), "k": k, "t": "" if typ in SCALARS else resolve(typ, pkg),
                               "p": "oneof" if of else (label or "single"), "of": of})
        msgs[full] = sorted(fields, key=lambda x: x["no"])
json.dump({"messages": msgs, "enums": enums, "services": svcs}, open(os.path.join(V, "spec", "messages.json"), "w"), indent=0, sort_keys=True)
print(len(msgs), "messages", sum(len(v) for v in msgs.values()), "fields", len(enums), "enums", svcs)
print({f["k"] for v in msgs.values() for f in v}, [k for k, v in msgs.items() if not v])
