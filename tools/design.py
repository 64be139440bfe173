#!/usr/bin/env python3
"""Regenerates the per-property part of DESIGN.md (between the markers) from properties.jsonl and the harness headers."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    "P01": "a list of (due cycle, payload) pairs; each record logs the cycle in which it was applied",
    "P02": "a shadow reference count and a shadow byte array per buffer; the factory's free lists are observed through reuse and through the heap model (leaks, double frees, use after free)",
    "P03": "bit i of the result is the i-th set bit of the mask in the input, computed bit by bit",
    "P04": "a shadow count; destruction observed through the destructor",
    "P05": "C++ conversion of the constant, and the text given",
    "P06": "bitwise composition of the condition values",
    "P07": "a shadow table of raised / masked flags and message lists",
    "P08": "IEEE 754 classification computed from the raw bit fields; widening computed by integer arithmetic",
    "P09": "evaluation of the same random tree by a direct recursive interpreter in 64 bits, with errors for non-integers and division by zero",
    "P10": "the naming rule applied per character; registry as an association list",
    "P11": "an array of booleans",
    "P12": "a set of reserved indices and due times",
    "P13": "an array of busy flags indexed by absolute cycle",
    "P14": "the last value due at or before the present cycle; typed reads by C++ conversion",
    "P15": "products of shapes, names and texts given, identity of objects",
    "P16": "a bounded queue with a reservation count",
    "P17": "token arithmetic (tokens = elements + reservations), transitions of the bounded queue",
    "P18": "a version number per address, raised by each invalidation that covers it; the fake decoder stamps instructions with it",
    "P19": "lists of operands and children with shadow lifetimes; element-wise C++ arithmetic",
    "P20": "an array of bytes",
    "P21": "an array of bytes and an array of tag bytes",
    "P22": "the operation's definition on integers; a link is broken by any store that touches its granule",
    "P23": "interval containment",
    "P24": "interval intersection with the list of watches",
    "P25": "a list-based LRU model per set",
    "P26": "the values exported and imported again",
    "P27": "a shadow table of enabled points; instruction memory observed for the breakpoint instruction or the original contents",
    "P28": "the set of words touched",
    "P29": "concatenation of the described bits, from the description (not from the emitted code)",
    "P30": "the described bits replaced, all others kept",
    "P31": "the description's constraints evaluated on the word",
    "P32": "membership evaluated by direct comparison with the constraint",
    "P33": "tables made from the same description by a second, independent evaluation (harness/gen/isa_battery.py)",
    "P37": "a model of the 16550 registers written in the harness; a recording function in place of the renode bus",
    "P38": "a model of ELFIO (shim/elfio) that hands over symbolic program headers, bytes and symbols; recording memories; the profile computed from the samples",
    "P35": "a model of the socket (harness/vf_sock.h) that takes or delivers any number of the characters of each call, fails, or is interrupted; the characters on the socket against the characters written",
    "P36": "a model of the core behind CoreDebugInterface, which records what is asked of it, a model of the socket, and the GDB remote protocol's definition of each command, written in the harness",
    "P34": "the plain form of each description, written by hand (harness/gen/bin_battery.py) and evaluated on the word; for mistakes, that the generator refuses",
}
NOTE = {}
def main():
    exec(open(os.path.join(V, "tools", "design_notes.py")).read(), {"ORACLE": ORACLE, "NOTE": NOTE})
    out = []
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)
        i = p["id"]
        hs = sorted(glob.glob(os.path.join(V, "harness", i + "_*.cc")))
        out.append("### %s %s\n" % (i, p["title"]))
        out.append("Quantified over %s." % p["quantifier"]["text"])
        if i in ORACLE: out.append("Oracle: %s." % ORACLE[i])
        out.append("Beyond tests: %s.\n" % p["why_tests_cant"].rstrip("."))
        for h in hs:
            t = open(h).read()
            g = lambda k: [m.strip() for m in re.findall(r"^// %s:(.*)$" % k, t, re.M)]
            src = " ".join(g("SRC"))
            out.append("- `%s`: entries %s" % (os.path.basename(h), ", ".join("`%s`" % e for e in re.findall(r"^VF_ENTRY(?:_T)?\((\w+)\)", t, re.M))))
            if src: out.append("  - encoded: %s" % src)
            for b in g("GEN"): out.append("  - code emitted by the repository's generator (`%s`) is encoded too" % b)
            for b in g("BOUND"): out.append("  - bound: %s" % b)
            for b in g("ASSUME"): out.append("  - assumed: %s" % b)
        for n in NOTE.get(i, []): out.append("- %s" % n)
        out.append("")
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- properties -->\n", "<!-- end of properties -->"
    s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):]
    open(p, "w").write(s)
main()
