"""Reads QIR programs (LLVM text as printed by LLVM) into plain data, independently of the loader under
test.  {"nq", "nb": required qubits and results, "blocks": [[label, calls]], "ret"}; a call is
{"f", "p": floats, "q", "r"}."""
import re
import struct

CALL = re.compile(r"^call (\S+) @([\w.]+)\((.*)\)(?: #\d+)?$")
PTR = re.compile(r"^%(Qubit|Result)\* (?:writeonly )?(?:null|inttoptr \(i64 (\d+) to %\1\*\))$")


class NotQir(Exception):
    pass


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += (ch == "(") - (ch == ")")
        if ch == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


def double(s):
    if s.startswith("0x"):
        return struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
    return float(s)


def parse(text):
    decl, defs, blocks, attrs = {}, [], [], {}
    name, flags = "", {}
    ret, inside = None, False
    for line in text.splitlines():
        line = line.split(";")[0].strip()
        if not line:
            continue
        m = re.match(r"^declare (\S+) @([\w.]+)\((.*)\)(?: #\d+)?$", line)
        if m:
            if m[2] in decl:
                raise NotQir(f"{m[2]} is declared twice")
            decl[m[2]] = [re.sub(r" (writeonly|readonly|nocapture)", "", x) for x in split(m[3])]
            continue
        m = re.match(r"^define void @(\w+)\(\) #(\d+) \{$", line)
        if m:
            defs.append(m[1])
            entry, inside = m[2], True
            continue
        if line == "}":
            inside = False
            continue
        m = re.match(r"^attributes #(\d+) = \{(.*)\}$", line)
        if m:
            attrs[m[1]] = dict(re.findall(r'"([\w-]+)"="([^"]*)"', m[2])) | ({"entry": True} if '"entry_point"' in m[2] else {})
            continue
        m = re.match(r'^!\d+ = !\{i32 \d+, !"(\w+)", i(?:1|32) (\w+)\}$', line)
        if m:
            flags[m[1]] = m[2]
        m = re.match(r'^source_filename = "(.*)"$', line)
        if m:
            name = re.sub(r"\\(\\|[0-9A-F]{2})", lambda x: "\\" if x[1] == "\\" else chr(int(x[1], 16)), m[1])
        if not inside:
            continue
        m = re.match(r"^([\w.]+):$", line)
        if m:
            blocks.append([m[1], [], None])
            continue
        if not blocks or blocks[-1][2] is not None:
            raise NotQir(f"after the end of a block: {line}")
        m = CALL.match(line)
        if m:
            blocks[-1][1].append((m[2], split(m[3])))
        elif line.startswith("br label %"):
            blocks[-1][2] = line[len("br label %"):]
        elif line.startswith("ret "):
            blocks[-1][2] = "ret"
            ret = line[4:]
        else:
            raise NotQir(line)
    if len(defs) != 1 or not attrs.get(entry, {}).get("entry"):
        raise NotQir(f"entry points: {defs}")
    # the blocks are executed in the order in which they are linked
    for (a, _, nxt), b in zip(blocks, blocks[1:] + [None]):
        if nxt != (b[0] if b else "ret"):
            raise NotQir(f"block {a} continues with {nxt}")
    out = []
    for label, calls, _ in blocks:
        seq = []
        for f, args in calls:
            types = [x.rsplit(" ", 1)[0] if x.startswith("double") else x.split(" ")[0] for x in args]
            if f not in decl or decl[f] != types:
                raise NotQir(f"{f} is called with {types} but declared with {decl.get(f)}")
            c = {"f": f, "p": [], "q": [], "r": []}
            kinds = ""
            for x in args:
                m = PTR.match(x)
                if m:
                    c["q" if m[1] == "Qubit" else "r"].append(int(m[2] or 0))
                    kinds += m[1][0]
                elif x.startswith("double "):
                    c["p"].append(double(x[7:]))
                    kinds += "D"
                elif x != "i8* null":
                    raise NotQir(f"argument {x}")
            if not re.fullmatch("D*Q*R*", kinds):
                raise NotQir(f"{f} has arguments {kinds}")
            if f.startswith("__quantum__qis__") and f.endswith("__body"):
                c["f"] = f[len("__quantum__qis__"):-len("__body")]
            seq.append(c)
        out.append([label, seq])
    a = attrs[entry]
    return {"nq": int(a["num_required_qubits"]), "nb": int(a["num_required_results"]), "blocks": out, "ret": ret,
            "name": name, "flags": flags}


def of_bitcode(b):
    import pyqir
    return parse(str(pyqir.Module.from_bitcode(pyqir.Context(), b)))


def base_profile(d):
    """The parts of a program in the four blocks of the base profile: body, measurements, output."""
    labels = [b[0] for b in d["blocks"]]
    if labels != ["entry", "body", "measurements", "output"]:
        raise NotQir(f"blocks {labels}")
    entry, body, meas, out = (b[1] for b in d["blocks"])
    if [c["f"] for c in entry] != ["__quantum__rt__initialize"]:
        raise NotQir("entry block")
    if any(c["f"].startswith("__quantum__rt") for c in body + meas):
        raise NotQir("runtime calls outside of the output block")
    res = []
    for c in out:
        if c["f"] != "__quantum__rt__result_record_output" or len(c["r"]) != 1 or c["q"] or c["p"]:
            raise NotQir("output block")
        res.append(c["r"][0])
    return {"nq": d["nq"], "nb": d["nb"], "body": body, "meas": meas, "out": res, "ret": d["ret"]}
