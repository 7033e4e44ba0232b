"""C19: generates schemas, runs protoc with the generator of the repository,
compiles the result and judges calls through it (harness/gencheck)."""
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess

STARPC = "github.com/aperturerobotics/starpc"
TYPES = "github.com/aperturerobotics/protobuf-go-lite/types/known/"
KINDS = ["Unary", "ClientStream", "ServerStream", "Bidi"]


class NoAnswer(RuntimeError):
    pass


def camel(s):
    """The Go name of a protobuf name (as protoc-gen-go)."""
    b = ""
    i = 0
    lower = lambda c: "a" <= c <= "z"
    while i < len(s):
        c = s[i]
        if c == "." and i + 1 < len(s) and lower(s[i + 1]):
            pass
        elif c == ".":
            b += "_"
        elif c == "_" and (i == 0 or s[i - 1] == "."):
            b += "X"
        elif c == "_" and i + 1 < len(s) and lower(s[i + 1]):
            pass
        elif c.isdigit():
            b += c
        else:
            b += c.upper() if lower(c) else c
            while i + 1 < len(s) and lower(s[i + 1]):
                i += 1
                b += s[i]
        i += 1
    return b


class Msg:
    def __init__(self, full, go, imp, wire, body=None):
        self.full, self.go, self.imp, self.wire, self.body = full, go, imp, wire, body


KNOWN = [
    Msg("google.protobuf.Empty", "Empty", TYPES + "emptypb", "Empty"),
    Msg("google.protobuf.Timestamp", "Timestamp", TYPES + "timestamppb", "Stamp"),
    Msg("google.protobuf.StringValue", "StringValue", TYPES + "wrapperspb", "Str"),
    Msg("rpcstream.RpcStreamPacket", "RpcStreamPacket", STARPC + "/rpcstream", "Packet"),
]
KNOWN_FILE = {
    "Empty": "google/protobuf/empty.proto", "Timestamp": "google/protobuf/timestamp.proto",
    "StringValue": "google/protobuf/wrappers.proto", "RpcStreamPacket": STARPC + "/rpcstream/rpcstream.proto",
}
M_OPTS = {
    "google/protobuf/empty.proto": TYPES + "emptypb", "google/protobuf/timestamp.proto": TYPES + "timestamppb",
    "google/protobuf/wrappers.proto": TYPES + "wrapperspb",
    STARPC + "/rpcstream/rpcstream.proto": STARPC + "/rpcstream",
}
SVC = ["Echoer", "Svc", "Svc2", "svc_two", "SvcTwoThree", "Svc_Two", "type", "Map", "String", "Error", "Foo", "FooBar", "Foo_Baz",
       "FooClient", "FooServer", "FooHandler", "FooStream", "_under", "A", "a1_b2", "HTTPApi", "Context", "Stream", "Mux", "Client"]
MET = ["Get", "get_x", "GetX2", "Get_2", "func", "range", "select", "String", "Close", "Send", "Recv", "RecvTo", "MsgSend", "Context",
       "CloseSend", "CloseAndRecv", "GetServiceID", "GetMethodIDs", "InvokeMethod", "Register", "_hidden", "a", "A1b2", "Echo", "EchoStream",
       "list_all_things", "List", "ListStream", "Delete", "Reset", "Error", "Watch", "GET", "geT", "Do_It", "Do__It", "init", "Serve",
       "Client", "Handler", "x1", "RpcStream", "SRPC"]
# names which are easily confused
SVC_NEAR = ["A", "A_B", "AB", "A__B", "A_b", "A_B_C", "a", "B", "AB_C", "A_"]
MET_NEAR = ["B", "C", "B_C", "BC", "B__C", "b_c", "_C", "C_", "B_C_D", "D", "C_D", "_B_C"]
COMMENTS = [
    "// Does a thing.", "// First line.\n  //\n  // Third line.", "/* block */", "/* block\n   * over lines\n   */", "// */ tricky /*",
    "// `quoted` \"quotes\" %s %d \\n", "//", "//no space", "// caf\u00e9 \u4e16\u754c", "// func broken( {", "//   indented\n  //\ttab",
    "// trailing   ", "// }", "// detached\n\n  // attached",
]
# package names which the generated code imports too, or which are keywords
GOPKG = ["pkga;pkga", "pkgb;pkgb", "v1;foov1", "srpc;srpc", "context;context", "deep/er/pkgc;pkgc", "type;typ", "emptypb;emptypb", "rpcstream;rpcstream",
         "strings;strings", "other;context", "main_x;mainx"]
PPKG = ["", "a", "a.b.v1", "Pkg_x", "e2e.mock", "srpc", "context", "google.fake", "string"]


def derived(svc, methods):
    out = []
    for pat in ("SRPC%sClient", "srpc%sClient", "SRPC%sServer", "SRPC%sServiceID", "SRPC%sHandler", "NewSRPC%sClient",
                "NewSRPC%sClientWithServiceID", "NewSRPC%sHandler", "SRPCRegister%s"):
        out.append(pat % svc)
    for m, kind in methods:
        for pre in ("SRPC", "srpc"):
            for suf in ("Client", "Stream"):
                out.append(pre + svc.replace("_", "__") + "_" + m.replace("_", "__") + suf)
    return out


def gen_schema(rnd, n):
    """Returns (files {path: text}, services, go packages)."""
    mod = f"gencase/s{n}"
    npkg = rnd.randint(1, 3)
    gopkgs = rnd.sample(GOPKG, npkg)
    ppkgs = [rnd.choice(PPKG) for _ in range(npkg)]
    files, services, msgs, full, used = {}, [], [], set(), {}
    file_of = {}
    for p in range(npkg):
        gopkg = gopkgs[p]
        imp = mod + "/" + gopkg.split(";")[0]
        idents = used.setdefault(imp, set())
        nfile = rnd.randint(1, 2)
        for f in range(nfile):
            pkg = ppkgs[p] if rnd.random() < 0.8 else rnd.choice(PPKG)
            path = rnd.choice([f"s{n}/p{p}/f{f}.proto", f"s{n}/p{p}/foo-bar.v{f}.proto", f"s{n}/f_{p}_{f}.proto", f"s{n}/p{p}/x_srpc{f}.proto"])
            q = (pkg + ".") if pkg else ""
            body, own = [], []
            for m in range(rnd.randint(0 if msgs else 1, 3)):
                name = rnd.choice([f"Msg{p}{f}{m}", f"msg_{p}_{f}_{m}", f"Request{p}{f}{m}", f"EchoMsg{p}{f}{m}", f"T{p}{f}{m}"])
                nest = rnd.random() < 0.3
                rich = rnd.random() < 0.6
                wire = "Rich" if rich else rnd.choice(["Str", "Empty"])
                fields = {"Rich": "string body = 1; bytes data = 2; uint64 n = 3; repeated string l = 4;", "Str": "string body = 1;", "Empty": ""}[wire]
                if q + name in full or camel(name) in idents:
                    continue
                if nest:
                    names = [name, name + ".Inner"]
                    body.append(f"message {name} {{ {fields} message Inner {{ string v = 1; }} }}")
                else:
                    names = [name]
                    body.append(f"message {name} {{ {fields} }}")
                for k, nm in enumerate(names):
                    full.add(q + nm)
                    idents.add(camel(nm))
                    own.append(Msg(q + nm, camel(nm), imp, wire if k == 0 else "Str"))
            for x in own:
                file_of[x.full] = path
            usable = [x for x in msgs] + own + KNOWN
            imports = set()
            near = rnd.random() < 0.2
            for s in range(rnd.randint(2, 6) if near else rnd.randint(0 if services else 1, 3)):
                name = rnd.choice(SVC_NEAR if near else SVC)
                if q + name in full:
                    continue
                meths, seen = [], set()
                for mname in rnd.sample(MET_NEAR if near else MET, rnd.choice([0, 3, 6, 9, 12] if near else [0, 1, 2, 3, 4, 6, 9])):
                    g = camel(mname)
                    if g in seen:
                        continue
                    seen.add(g)
                    meths.append((mname, rnd.randint(0, 3)))
                d = derived(camel(name), [(camel(m), k) for m, k in meths])
                if len(set(d)) != len(d) or idents & set(d):
                    continue
                idents |= set(d)
                full.add(q + name)
                lines, ms = [], []
                for mname, kind in meths:
                    i, o = rnd.choice(usable), rnd.choice(usable)
                    if rnd.random() < 0.5 and own:
                        i = rnd.choice(own)
                    if rnd.random() < 0.3:
                        o = i
                    for x in (i, o):
                        src = KNOWN_FILE.get(x.go) if x in KNOWN else file_of[x.full]
                        if src != path:
                            imports.add(src)
                    if rnd.random() < 0.5:
                        lines.append("  " + rnd.choice(COMMENTS))
                    cs, ss = ("stream " if kind & 1 else ""), ("stream " if kind & 2 else "")
                    tail = rnd.choice([";", " {}", "; // trailing comment", " { option deprecated = true; }"])
                    lines.append(f"  rpc {mname}({cs}.{i.full}) returns ({ss}.{o.full}){tail}")
                    ms.append((mname, kind, i, o))
                body.append((rnd.choice(COMMENTS).replace("\n  ", "\n") + "\n" if rnd.random() < 0.5 else "") + f"service {name} {{\n" + "\n".join(lines) + "\n}")
                services.append({"id": q + name, "go": camel(name), "imp": imp, "methods": ms})
            rnd.shuffle(body)
            text = 'syntax = "proto3";\n' + (f"package {pkg};\n" if pkg else "") + "".join(f'import "{x}";\n' for x in sorted(imports))
            goopt = mod + "/" + gopkg
            text += f'option go_package = "{goopt}";\n' + "\n".join(body) + "\n"
            files[path] = text
            msgs += own
    return files, services


COMMITTED = [
    {"name": "echo", "services": [{"id": "echo.Echoer", "go": "Echoer", "imp": STARPC + "/echo", "methods": [
        ("Echo", 0, "e", "e"), ("EchoServerStream", 2, "e", "e"), ("EchoClientStream", 1, "e", "e"), ("EchoBidiStream", 3, "e", "e"),
        ("RpcStream", 3, "p", "p"), ("DoNothing", 0, "0", "0")]}]},
    {"name": "mock", "services": [{"id": "e2e.mock.Mock", "go": "Mock", "imp": STARPC + "/mock", "methods": [("MockRequest", 0, "m", "m")]}]},
]
COMMITTED_MSG = {
    "e": Msg("echo.EchoMsg", "EchoMsg", STARPC + "/echo", "Str"), "p": KNOWN[3], "0": KNOWN[0],
    "m": Msg("e2e.mock.MockMsg", "MockMsg", STARPC + "/mock", "Str"),
}


def driver(name, services):
    """The Go source which ties the stubs of a schema to gencheck."""
    imps = {}

    def at(imp):
        return imps.setdefault(imp, f"p{len(imps)}")

    def ty(m):
        return f"{at(m.imp)}.{m.go}"

    impl, reg = [], []
    for k, s in enumerate(services):
        P, S = at(s["imp"]), s["go"]
        impl.append(f"type i{k} struct{{ h *gencheck.Impl }}\n")
        ms = []
        for mname, kind, i, o in s["methods"]:
            G = camel(mname)
            sid, mid = json.dumps(s["id"]), json.dumps(mname)
            strm = f"{P}.SRPC{S.replace('_', '__')}_{G.replace('_', '__')}Stream"
            cli = f"c.({P}.SRPC{S}Client).{G}(r.Ctx"
            I, O = ty(i), ty(o)
            if kind == 0:
                impl.append(f"func (i i{k}) {G}(ctx context.Context, in *{I}) (*{O}, error) {{ return gencheck.SrvUnary[{O}](i.h, {sid}, {mid}, ctx, in) }}\n")
                call = f"out, err := {cli}, gencheck.Mk[{I}](r.Req[0])); gencheck.CliUnary(r, out, err)"
            elif kind == 1:
                impl.append(f"func (i i{k}) {G}(st {strm}) (*{O}, error) {{ return gencheck.SrvCollect[{I}, {O}](i.h, {sid}, {mid}, st) }}\n")
                call = f"st, err := {cli}); gencheck.CliCollect[{I}, {O}](r, st, err)"
            elif kind == 2:
                impl.append(f"func (i i{k}) {G}(in *{I}, st {strm}) error {{ return gencheck.SrvStream[{O}](i.h, {sid}, {mid}, in, st) }}\n")
                call = f"st, err := {cli}, gencheck.Mk[{I}](r.Req[0])); gencheck.CliStream[{O}](r, st, err)"
            else:
                impl.append(f"func (i i{k}) {G}(st {strm}) error {{ return gencheck.SrvBidi[{I}, {O}](i.h, {sid}, {mid}, st) }}\n")
                call = f"st, err := {cli}); gencheck.CliBidi[{I}, {O}](r, st, err)"
            ms.append(f"{{Name: {mid}, Kind: gencheck.{KINDS[kind]}, In: gencheck.{i.wire}, Out: gencheck.{o.wire}, "
                      f"Call: func(c any, r *gencheck.Run) {{ {call} }}}},\n")
        reg.append(f"""{{
ID: {json.dumps(s["id"])}, DefaultID: {P}.SRPC{S}ServiceID,
NewClient: func(cc srpc.Client) any {{ return {P}.NewSRPC{S}Client(cc) }},
NewClientID: func(cc srpc.Client, id string) any {{ return {P}.NewSRPC{S}ClientWithServiceID(cc, id) }},
ClientOf: func(c any) srpc.Client {{ return c.({P}.SRPC{S}Client).SRPCClient() }},
NewHandler: func(h *gencheck.Impl, id string) srpc.Handler {{ return {P}.NewSRPC{S}Handler(i{k}{{h}}, id) }},
Register: func(mux srpc.Mux, h *gencheck.Impl) error {{ return {P}.SRPCRegister{S}(mux, i{k}{{h}}) }},
Methods: []*gencheck.Method{{
{"".join(ms)}}},
}},
""")
    src = "package drv\n\nimport (\n\t\"context\"\n" + "".join(f"\t{a} {json.dumps(i)}\n" for i, a in imps.items())
    src += f"\t\"{STARPC}/srpc\"\n\t\"verifharness/gencheck\"\n)\n\nvar _ context.Context\n\n" + "".join(impl)
    src += f"\nfunc init() {{ gencheck.Add(&gencheck.Schema{{Name: {json.dumps(name)}, Services: []*gencheck.Service{{\n" + "".join(reg) + "}}) }\n"
    return src


def build_plugins(work, env, go, verif):
    har = os.path.join(verif, "harness")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(har, f), os.path.join(work, f))
    for pkg, opts in ((STARPC + "/cmd/protoc-gen-go-starpc", []), ("github.com/aperturerobotics/protobuf-go-lite/cmd/protoc-gen-go-lite", [])):
        r = subprocess.run([go, "build", "-modfile", os.path.join(work, "go.mod"), "-o", os.path.join(work, os.path.basename(pkg)), pkg],
                           cwd=har, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise NoAnswer("building " + pkg + ": " + r.stderr[-2000:])


def batch(work, env, go, verif, repo, seed, first, count, per, res):
    d = os.path.join(work, f"b{first}")
    proto = os.path.join(d, "proto")
    src = os.path.join(d, "src")
    os.makedirs(src)
    os.makedirs(os.path.join(proto, os.path.dirname(STARPC)))
    os.symlink(repo, os.path.join(proto, STARPC))
    har = os.path.join(verif, "harness")
    with open(os.path.join(har, "go.mod")) as f:
        mod = f.read()
    mod = mod.replace("module verifharness", "module gencase", 1) + "\nrequire verifharness v0.0.0\nreplace verifharness => " + har + "\n"
    with open(os.path.join(src, "go.mod"), "w") as f:
        f.write(mod)
    shutil.copy(os.path.join(har, "go.sum"), os.path.join(src, "go.sum"))
    mopts = "".join(f",M{k}={v}" for k, v in M_OPTS.items())
    names, texts = [], {}

    def protoc(files, plugin, opt):
        return subprocess.run(["protoc", "-I", proto, "-I", "/usr/include", f"--plugin=protoc-gen-{plugin}={work}/protoc-gen-{plugin}",
                               f"--{plugin}_out={src}", f"--{plugin}_opt={opt}"] + files, cwd=proto, env=env, capture_output=True, text=True)

    for n in range(first, first + count):
        rnd = random.Random(seed * 1000003 + n)
        files, services = gen_schema(rnd, n)
        if not services:
            continue
        texts[f"s{n}"] = "\n".join(f"// FILE {p}\n{t}" for p, t in files.items())
        for p, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(proto, p)), exist_ok=True)
            with open(os.path.join(proto, p), "w") as f:
                f.write(t)
        r = protoc(list(files), "go-lite", "features=marshal+unmarshal+size+equal+json+clone+text,module=gencase" + mopts)
        if r.returncode != 0:
            raise NoAnswer("protoc-gen-go-lite: " + r.stderr[-2000:] + texts[f"s{n}"])
        r = protoc(list(files), "go-starpc", "module=gencase" + mopts)
        if r.returncode != 0:
            res["violations"].append({"key": "generator", "index": -1, "msg": f"the generator failed: {r.stderr[-1500:]}\n{texts[f's{n}']}"})
            continue
        names.append((f"s{n}", services))
        res["sigs"].append(hashlib.sha1(texts[f"s{n}"].encode()).hexdigest())
        res["counters"]["proto-files"] = res["counters"].get("proto-files", 0) + len(files)
    if first == 0:
        for c in COMMITTED:
            sv = [dict(s, methods=[(a, b, COMMITTED_MSG[i], COMMITTED_MSG[o]) for a, b, i, o in s["methods"]]) for s in c["services"]]
            names.append((c["name"], sv))
    # the messages alone must compile: what fails after that is the generator's
    stubs = glob.glob(src + "/**/*_srpc*.pb.go", recursive=True)
    gen = [f for f in stubs if f.endswith("_srpc.pb.go") and "Code generated by protoc-gen-srpc" in open(f).read(400)]
    for f in gen:
        os.rename(f, f + ".off")
    r = subprocess.run([go, "build", "./..."], cwd=src, env=env, capture_output=True, text=True)
    if r.returncode != 0 and "matched no packages" not in r.stderr:
        raise NoAnswer("the generated messages do not compile: " + r.stderr[-3000:])
    for f in gen:
        os.rename(f + ".off", f)
    for name, services in names:
        os.makedirs(os.path.join(src, "drv", name))
        with open(os.path.join(src, "drv", name, "drv.go"), "w") as f:
            f.write(driver(name, services))
    bad = set()
    r = subprocess.run([go, "build", "-gcflags=-e=0", "./..."], cwd=src, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        for m in re.finditer(r"^(?:drv/)?(s\d+|echo|mock)/\S*: .*$", r.stderr, re.M):
            bad.add(m.group(1))
        if not bad:
            raise NoAnswer("go build: " + r.stderr[-3000:])
        for b in sorted(bad)[:3]:
            lines = [l for l in r.stderr.splitlines() if re.match(rf"(drv/)?{b}/", l)]
            res["violations"].append({"key": "compile", "index": -1, "msg": "the generated code does not compile or lacks what the schema declares:\n"
                                      + "\n".join(lines[:8]) + "\n" + texts.get(b, "")})
    good = [n for n, _ in names if n not in bad]
    if not good:
        return
    with open(os.path.join(src, "main.go"), "w") as f:
        f.write("package main\n\nimport (\n\t\"verifharness/gencheck\"\n" + "".join(f"\t_ \"gencase/drv/{n}\"\n" for n in good) + ")\n\nfunc main() { gencheck.Main() }\n")
    r = subprocess.run([go, "build", "-o", os.path.join(d, "driver"), "."], cwd=src, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise NoAnswer("go build: " + r.stderr[-3000:])
    out = os.path.join(d, "out.json")
    try:
        r = subprocess.run([os.path.join(d, "driver"), "-seed", str(seed), "-per", str(per), "-out", out], cwd=d, env=env, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired as e:
        last = (e.stderr or b"").decode(errors="replace")[-600:] if isinstance(e.stderr, bytes) else (e.stderr or "")[-600:]
        res["violations"].append({"key": "no-progress", "index": -1, "msg": "a call through the stubs does not end: " + last})
        return
    if r.returncode != 0:
        calls = [l for l in r.stderr.splitlines() if l.startswith("CALL ")]
        i = max(r.stderr.find("\nfatal error:"), r.stderr.find("\npanic:"), 0)
        res["violations"].append({"key": "crash", "index": -1, "msg": "during " + (calls[-1] if calls else "the setup") + r.stderr[i:i + 3000]})
        return
    with open(out) as f:
        o = json.load(f)
    res["evaluations"] += o["evaluations"]
    res["sigs"] += o["sigs"] or []
    res["samples"] += o["samples"] or []
    for v in o["violations"] or []:
        v["msg"] += "\n" + texts.get(v["msg"].split(":")[0], "")[:3000]
        res["violations"].append(v)
    for k, v in o["counters"].items():
        res["counters"][k] = res["counters"].get(k, 0) + v
    shutil.rmtree(d, ignore_errors=True)


def run(tmp, tier, seed, env, repo, verif, go):
    work = os.path.join(tmp, "c19")
    os.makedirs(work)
    res = {"evaluations": 0, "sigs": [], "samples": [], "violations": [], "counters": {}}
    build_plugins(work, env, go, verif)
    n, step, per = (24, 24, 6) if tier == "quick" else (400, 40, 12)
    for first in range(0, n, step):
        batch(work, env, go, verif, repo, seed, first, step, per, res)
    return res
