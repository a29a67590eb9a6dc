#!/usr/bin/env python3
"""Writes sim/props/access.go: reads an object through every accessor it has,
by interface assertion, without reflection (reflect and fmt use sync.Pool, whose
happens-before edges would hide data races between simulated tasks)."""
import re, glob
names = {}
kids = {}
for d in ("core", "sip/address", "sip/header", "sip/message", "rtp"):
    for f in sorted(glob.glob("/repo/" + d + "/*.go")):
        if f.endswith("_test.go"): continue
        src = open(f).read()
        for m in re.finditer(r'^func \(\w+ \*?(\w+)\) (Get\w*)\(\)\s*(\*?[\w.]+)\s*\{', src, re.M):
            t = m[3]; star = "*" if t.startswith("*") else ""; b = t.lstrip("*")
            if b[0].islower() and "." not in b or b in ("list.List", "time.Time", "interface", "net.IP") or d in ("rtp",) or not m[1][0].isupper(): continue
            if "." not in b: b = d.split("/")[-1] + "." + b
            if b.split(".")[0] in ("core", "address", "header", "message"): kids.setdefault(m[2], set()).add(star + b)
        for m in re.finditer(r'^func \((\w+) \*?(\w+)\) ((?:Get|Has|Is|String|Encode|CanonicalString|ToString|Check)\w*)\(([^)]*)\)\s*(.*?)\s*\{', open(f).read(), re.M):
            names.setdefault((re.sub(r'^\w+ ', '', m[4].strip()), m[5].strip()), set()).add(m[3])
out = ["package props\n", "import (", '\t"net"\n', '\t"github.com/use-go/gosips/core"', '\t"github.com/use-go/gosips/sip/address"', '\t"github.com/use-go/gosips/sip/header"', ")\n", "// Written by tools/gen_access.py.\n",
       "// readFlat reports the value of every accessor of o that yields a plain value.",
       "func readFlat(o interface{}, arg string, out func(name, val string)) {"]
conv = {"string": "x.%s(%s)", "bool": "bstr(x.%s(%s))", "int": "istr(x.%s(%s))", "[]byte": "string(x.%s(%s))", "net.IP": "string(x.%s(%s))",
        "float32": "fstr(float64(x.%s(%s)))", "float64": "fstr(x.%s(%s))", "uint8": "istr(int(x.%s(%s)))", "byte": "istr(int(x.%s(%s)))",
        "uint16": "istr(int(x.%s(%s)))", "uint32": "istr(int(x.%s(%s)))", "int64": "istr(int(x.%s(%s)))"}
for (a, r) in sorted(names):
    if a not in ("", "string") or r not in conv: continue
    for n in sorted(names[a, r]):
        if n in ("StringToken",): continue
        out.append("\tif x, ok := o.(interface{ %s(%s) %s }); ok {" % (n, a, r))
        out.append("\t\tout(%s\"%s\", %s)" % ("", n, conv[r] % (n, "arg" if a else "")))
        out.append("\t}")
out.append("}")
out += ["", "// readKids reports the objects the accessors of o yield.", "func readKids(o interface{}, out func(name string, v interface{})) {"]
for n in sorted(kids):
    for t in sorted(kids[n]):
        out.append("\tif x, ok := o.(interface{ %s() %s }); ok {" % (n, t))
        out.append("\t\tif v := x.%s(); v != nil {" % n)
        out.append("\t\t\tout(\"%s\", v)" % n)
        out.append("\t\t}")
        out.append("\t}")
out.append("}")

# editors: every method that changes an object, given plain or freshly made arguments
args = {"string": "s", "int": "n", "bool": "n&1 == 0", "float32": "float32(n%1000) / 1000", "interface{}": "s", "[]byte": "[]byte(s)",
        "address.URI": "freshURI(s)", "address.Address": "freshAddr(s)", "*core.NameValueList": "freshParams(s)", "*core.NameValue": "core.NewNameValue(s, s)",
        "*core.Host": "core.NewHost(\"h.example\")", "*core.HostPort": "freshHostPort()", "*header.Protocol": "header.NewProtocol()", "*header.MediaRange": "header.NewMediaRange()",
        "*address.UserInfo": "address.NewUserInfo()", "*address.Authority": "address.NewAuthority()", "*address.TelephoneNumber": "address.NewTelephoneNumber()"}
edits = {}
makers = []
for d in ("core", "sip/address", "sip/header", "sip/message"):
    pkg = d.split("/")[-1]
    for f in sorted(glob.glob("/repo/" + d + "/*.go")):
        if f.endswith("_test.go"): continue
        src = open(f).read()
        def qual(t):
            star = "*" if t.startswith("*") else ""
            b = t.lstrip("*")
            return star + pkg + "." + b if re.match(r"[A-Z]\w*$", b) else t
        for m in re.finditer(r"^func \(\w+ \*?(\w+)\) ((?:Set|Remove|Clear|Add|Delete|Decrement|Concat|Append)\w*)\(([^)]*)\)\s*(.*?)\s*\{", src, re.M):
            if not m[1][0].isupper() or m[1] in ("LexerCore", "StringTokenizer", "LogWriter"): continue
            ts = []; ok = True; pend = 0
            for a in [a.strip() for a in m[3].split(",") if a.strip()]:
                w = a.split(None, 1)
                if len(w) == 1: pend += 1; continue
                ts += [qual(w[1])] * (pend + 1); pend = 0
            if pend or any(t not in args for t in ts): continue
            r = m[4].strip()
            if r not in ("", "error", "bool"): continue
            edits.setdefault(m[2], set()).add((tuple(ts), r))
        for m in re.finditer(r"^func (New\w*)\(\) (\*?)(\w+)", src, re.M):
            makers.append("%s.%s()" % (pkg, m[1]))
out += ["", "// editsOf lists what changes o, by interface assertion.", "func editsOf(o interface{}, s string, n int) (fs []func()) {"]
for n in sorted(edits):
    for (ts, r) in sorted(edits[n]):
        out.append("\tif x, ok := o.(interface{ %s(%s) %s }); ok {" % (n, ", ".join(ts), r))
        out.append("\t\tfs = append(fs, func() { x.%s(%s) })" % (n, ", ".join(args[t] for t in ts)))
        out.append("\t}")
out += ["\treturn", "}", "", "// makers make one object of each type.", "var makers = []func() interface{}{"]
for m in makers: out.append("\tfunc() interface{} { return %s }," % m)
out.append("}")
out = [o for o in out]
out[out.index('\t"github.com/use-go/gosips/sip/header"')] += '\n\t"github.com/use-go/gosips/sip/message"'
open("/verif/sim/props/access.go", "w").write("\n".join(out) + "\n")
import subprocess
subprocess.check_call(["gofmt", "-w", "/verif/sim/props/access.go"])
