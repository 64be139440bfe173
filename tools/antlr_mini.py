"""Translates an ANTLR 4 grammar of /repo into a parser with the C++ API the visitors use.

Usage: antlr_mini.py GRAMMAR.g4 NAMESPACE OUTDIR

Emits OUTDIR/<G>Parser.h and OUTDIR/<G>Lexer.h. The tables are interpreted by
shim_antlr/antlr4-runtime (all parses are explored, the first alternative that
leads to a parse wins, loops are greedy). Directly left-recursive rules are
parsed by precedence climbing, as ANTLR does.
"""
import re
import sys

SEQ, ALT, OPT, STAR, PLUS, LIT, SET, TOK, RULE, ANY, EOF_, LAZY = range(12)


def tokenize(text):
    toks, i = [], 0
    while i < len(text):
        c = text[i]
        if c.isspace():
            i += 1
        elif text.startswith('//', i):
            i = text.find('\n', i)
            if i < 0:
                break
        elif text.startswith('/*', i):
            i = text.index('*/', i) + 2
        elif c == "'":
            j = i + 1
            while text[j] != "'":
                j += 2 if text[j] == '\\' else 1
            toks.append(('lit', unescape(text[i + 1:j])))
            i = j + 1
        elif c == '[':
            j = i + 1
            while text[j] != ']':
                j += 2 if text[j] == '\\' else 1
            toks.append(('set', charset(text[i + 1:j])))
            i = j + 1
        elif text.startswith('->', i):
            toks.append(('op', '->'))
            i += 2
        elif c.isalpha() or c == '_':
            m = re.compile(r'\w+').match(text, i)
            toks.append(('id', m.group()))
            i = m.end()
        else:
            toks.append(('op', c))
            i += 1
    return toks


def unescape(s):
    out, i = '', 0
    while i < len(s):
        if s[i] == '\\':
            i += 1
            out += {'n': '\n', 'r': '\r', 't': '\t'}.get(s[i], s[i])
        else:
            out += s[i]
        i += 1
    return out


def charset(s):
    chars, i, items = set(), 0, []
    while i < len(s):
        if s[i] == '\\':
            i += 1
            items.append(({'n': '\n', 'r': '\r', 't': '\t'}.get(s[i], s[i]), False))
        else:
            items.append((s[i], s[i] == '-'))
        i += 1
    i = 0
    while i < len(items):
        if i + 2 < len(items) and items[i + 1] == ('-', True):
            for o in range(ord(items[i][0]), ord(items[i + 2][0]) + 1):
                chars.add(o)
            i += 3
        else:
            chars.add(ord(items[i][0]))
            i += 1
    return frozenset(chars)


class G:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('eof', '')

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def op(self, c):
        if self.peek() == ('op', c):
            self.i += 1
            return True
        return False

    def expect(self, c):
        if not self.op(c):
            raise SystemExit('g4: expected %r at %r' % (c, self.t[self.i:self.i + 5]))

    def alts(self):
        a = [self.seq()]
        while self.op('|'):
            a.append(self.seq())
        return a[0] if len(a) == 1 else ('alt', a)

    def seq(self):
        items = []
        while True:
            k, v = self.peek()
            if k in ('eof',) or (k == 'op' and v in '|);') or (k, v) == ('op', '->'):
                break
            if (k, v) == ('op', '#'):
                raise SystemExit('g4: labelled alternatives are not supported')
            items.append(self.item())
        return ('seq', items)

    def item(self):
        label = None
        k, v = self.next()
        if k == 'id' and self.peek() == ('op', '='):
            self.next()
            label = v
            k, v = self.next()
        if k == 'id':
            e = ('ref', v)
        elif k == 'lit':
            e = ('lit', v)
        elif k == 'set':
            e = ('set', False, v)
        elif (k, v) == ('op', '~'):
            k2, v2 = self.next()
            if k2 == 'set':
                e = ('set', True, v2)
            elif k2 == 'lit' and len(v2) == 1:
                e = ('set', True, frozenset([ord(v2)]))
            else:
                raise SystemExit('g4: unsupported negation')
        elif (k, v) == ('op', '.'):
            e = ('any',)
        elif (k, v) == ('op', '('):
            e = self.alts()
            self.expect(')')
        else:
            raise SystemExit('g4: unexpected %r' % ((k, v),))
        if label:
            e = ('label', label, e)
        if self.op('?'):
            e = ('opt', e)
        elif self.op('*'):
            e = ('lazy' if self.op('?') else 'star', e)
        elif self.op('+'):
            e = ('plus', e)
        return e


def parse_grammar(text):
    g = G(tokenize(text))
    assert g.next() == ('id', 'grammar')
    name = g.next()[1]
    g.expect(';')
    rules, lexer = {}, []
    while g.peek()[0] != 'eof':
        frag = False
        if g.peek() == ('id', 'fragment'):
            g.next()
            frag = True
        n = g.next()[1]
        g.expect(':')
        body = g.alts()
        skip = False
        if g.op('->'):
            while not g.op(';'):
                if g.next() in (('id', 'HIDDEN'), ('id', 'skip')):
                    skip = True
        else:
            g.expect(';')
        if n[0].isupper():
            lexer.append((n, frag, skip, body))
        else:
            rules[n] = body
    return name, rules, lexer


def main():
    src, ns, out = sys.argv[1:4]
    import os; os.makedirs(out, exist_ok=True)
    name, rules, lexer = parse_grammar(open(src).read())
    # Token types: literals that are the whole body of a lexer rule take its name.
    lit_names = {}
    for n, frag, skip, body in lexer:
        if not frag and body[0] == 'seq' and len(body[1]) == 1 and body[1][0][0] == 'lit':
            lit_names.setdefault(body[1][0][1], n)
    toks, anon = {}, []

    def walk(e):
        if e[0] == 'lit':
            if e[1] not in lit_names and e[1] not in anon:
                anon.append(e[1])
        elif e[0] in ('seq', 'alt'):
            for x in e[1]:
                walk(x)
        elif e[0] == 'label':
            walk(e[2])
        elif e[0] in ('opt', 'star', 'plus', 'lazy'):
            walk(e[1])
    for b in rules.values():
        walk(b)
    for a in anon:
        toks[('lit', a)] = len(toks) + 1
    for n, frag, skip, body in lexer:
        if not frag:
            toks[n] = len(toks) + 1
    nodes = []   # (kind, a, label, kids)
    sets = []
    strs = []
    rule_ids = {n: i for i, n in enumerate(rules)}
    frag_ids = {n: i for i, (n, f, s, b) in enumerate(lexer)}

    def add(kind, a=0, label=-1, kids=()):
        nodes.append((kind, a, label, list(kids)))
        return len(nodes) - 1

    def lex(e):
        k = e[0]
        if k == 'seq':
            return add(SEQ, 0, -1, [lex(x) for x in e[1]])
        if k == 'alt':
            return add(ALT, 0, -1, [lex(x) for x in e[1]])
        if k in ('opt', 'star', 'plus', 'lazy'):
            return add({'opt': OPT, 'star': STAR, 'plus': PLUS, 'lazy': LAZY}[k], 0, -1, [lex(e[1])])
        if k == 'lit':
            strs.append(e[1])
            return add(LIT, len(strs) - 1)
        if k == 'set':
            sets.append((e[1], e[2]))
            return add(SET, len(sets) - 1)
        if k == 'any':
            return add(ANY)
        if k == 'ref':
            return add(EOF_) if e[1] == 'EOF' else add(RULE, frag_ids[e[1]])
        raise SystemExit('g4: lexer ' + k)

    labels_of = {}

    def par(e, labels, label=-1):
        k = e[0]
        if k == 'label':
            if e[1] not in labels:
                labels.append(e[1])
            return par(e[2], labels, labels.index(e[1]))
        if k == 'seq':
            kids = [par(x, labels, label) for x in e[1]]
            return kids[0] if len(kids) == 1 else add(SEQ, 0, -1, kids)
        if k == 'alt':
            return add(ALT, 0, -1, [par(x, labels, label) for x in e[1]])
        if k in ('opt', 'star', 'plus'):
            return add({'opt': OPT, 'star': STAR, 'plus': PLUS}[k], 0, -1, [par(e[1], labels, label)])
        if k == 'lit':
            return add(TOK, toks[lit_names[e[1]]] if e[1] in lit_names else toks[('lit', e[1])], label)
        if k == 'ref':
            if e[1] == 'EOF':
                return add(TOK, 0, label)
            if e[1][0].isupper():
                return add(TOK, toks[e[1]], label)
            return add(RULE, rule_ids[e[1]], label)
        raise SystemExit('g4: parser ' + k)

    lex_roots = []
    for a in anon:
        strs.append(a)
        lex_roots.append((add(LIT, len(strs) - 1), toks[('lit', a)], 0))
    lex_rule = []
    for n, frag, skip, body in lexer:
        r = lex(body)
        lex_rule.append(r)
        if not frag:
            lex_roots.append((r, toks[n], 1 if skip else 0))
    lex_nodes, lex_sets = nodes, sets
    nodes = []
    par_rule = []   # (root, leftrec alternatives)

    def starts_with(e, n):
        if e[0] == 'label':
            return starts_with(e[2], n)
        if e[0] == 'seq' and e[1]:
            return starts_with(e[1][0], n)
        return e == ('ref', n)

    for n, body in rules.items():
        labels = labels_of[n] = []
        alts = body[1] if body[0] == 'alt' else [body]
        if any(starts_with(a, n) for a in alts):
            prim = [(i, par(a, labels)) for i, a in enumerate(alts) if not starts_with(a, n)]
            tails = []
            for i, a in enumerate(alts):
                if starts_with(a, n):
                    assert a[0] == 'seq'
                    head = a[1][0]
                    lab = -1
                    if head[0] == 'label':
                        if head[1] not in labels:
                            labels.append(head[1])
                        lab = labels.index(head[1])
                    tails.append((i, lab, par(('seq', a[1][1:]), labels)))
            par_rule.append(('lr', prim, tails))
        else:
            par_rule.append(('n', par(body, labels)))

    # Accessors.
    def freq(e):
        k = e[0]
        if k == 'seq':
            f = {}
            for x in e[1]:
                for s, c in freq(x).items():
                    f[s] = f.get(s, 0) + c
            return f
        if k == 'alt':
            f = {}
            for x in e[1]:
                for s, c in freq(x).items():
                    f[s] = max(f.get(s, 0), c)
            return f
        if k == 'label':
            return freq(e[2])
        if k == 'opt':
            return freq(e[1])
        if k in ('star', 'plus', 'lazy'):
            return {s: 2 for s in freq(e[1])}
        if k == 'lit':
            return {lit_names[e[1]]: 1} if e[1] in lit_names else {}
        if k == 'ref':
            return {e[1]: 1}
        return {}

    def label_types(e, acc):
        k = e[0]
        if k == 'label':
            r = e[2]
            while r[0] == 'seq' and len(r[1]) == 1:
                r = r[1][0]
            acc[e[1]] = r[1] if r[0] == 'ref' and r[1][0].islower() else None
        elif k in ('seq', 'alt'):
            for x in e[1]:
                label_types(x, acc)
        elif k in ('opt', 'star', 'plus', 'lazy'):
            label_types(e[1], acc)
        return acc

    ctx = lambda n: n[0].upper() + n[1:] + 'Context'
    o = []
    guard = 'VF_ANTLR_%s_PARSER_H' % name.upper()
    o.append('#ifndef %s\n#define %s\n#include "antlr4-runtime/antlr4-runtime.h"' % (guard, guard))
    o.append('namespace %s {' % ns)
    o.append('class %sParser : public antlr4::Parser {\n public:' % name)
    o.append('  enum {' + ', '.join('%s = %d' % (k, v) for k, v in toks.items() if isinstance(k, str)) + '};')
    for n in rules:
        o.append('  class %s;' % ctx(n))
    for n, body in rules.items():
        o.append('  class %s : public antlr4::ParserRuleContext {\n   public:' % ctx(n))
        for l, r in label_types(body, {}).items():
            o.append('    %s* %s = nullptr;' % (ctx(r) if r else 'antlr4::Token', l))
        for s, c in freq(body).items():
            if s == 'EOF':
                continue
            t = 'antlr4::tree::TerminalNode' if s[0].isupper() else ctx(s)
            if s[0].isupper():
                if c > 1:
                    o.append('    std::vector<%s*> %s() { return toks(%d); }' % (t, s, toks[s]))
                    o.append('    %s* %s(size_t i) { return tok(%d, i); }' % (t, s, toks[s]))
                else:
                    o.append('    %s* %s() { return tok(%d, 0); }' % (t, s, toks[s]))
            else:
                if c > 1:
                    o.append('    std::vector<%s*> %s() { return subs<%s>(); }' % (t, s, t))
                    o.append('    %s* %s(size_t i) { return sub<%s>(i); }' % (t, s, t))
                else:
                    o.append('    %s* %s() { return sub<%s>(0); }' % (t, s, t))
        o.append('    void setLabel(int l, antlr4::Token* t, antlr4::ParserRuleContext* c) override;')
        o.append('  };')
    o.append('  explicit %sParser(antlr4::CommonTokenStream* s) : antlr4::Parser(s, tables()) {}' % name)
    for n in rules:
        o.append('  %s* %s() { return static_cast<%s*>(parse(%d)); }' % (ctx(n), n, ctx(n), rule_ids[n]))
    o.append('  static antlr4::ParserRuleContext* create(int rule);')
    o.append('  static const antlr4::mini::Grammar& tables();\n};')
    for n, body in rules.items():
        o.append('inline void %sParser::%s::setLabel(int l, antlr4::Token* t, antlr4::ParserRuleContext* c) {' % (name, ctx(n)))
        lt = label_types(body, {})
        for i, l in enumerate(labels_of[n]):
            o.append('  if (l == %d) %s = %s;' % (i, l, 'static_cast<%s*>(c)' % ctx(lt[l]) if lt[l] else 't'))
        o.append('}')
    o.append('inline antlr4::ParserRuleContext* %sParser::create(int rule) {\n  switch (rule) {' % name)
    for n in rules:
        o.append('    case %d: return new %s;' % (rule_ids[n], ctx(n)))
    o.append('  }\n  return nullptr;\n}')

    def cstr(s):
        return '"' + ''.join('\\%03o' % ord(c) for c in s) + '"'

    def emit_nodes(ns_):
        return ', '.join('{%d, %d, %d, {%s}}' % (k, a, l, ', '.join(map(str, ks))) for k, a, l, ks in ns_)
    o.append('inline const antlr4::mini::Grammar& %sParser::tables() {' % name)
    o.append('  static const auto* g = new antlr4::mini::Grammar{')
    o.append('    {%s},' % emit_nodes(nodes))
    rr = []
    for r in par_rule:
        if r[0] == 'n':
            rr.append('{%d, {}, {}}' % r[1])
        else:
            rr.append('{-1, {%s}, {%s}}' % (
                ', '.join('{%d, -1, %d}' % p for p in r[1]),
                ', '.join('{%d, %d, %d}' % t for t in r[2])))
    o.append('    {%s},' % ', '.join(rr))
    o.append('    {%s},' % ', '.join(cstr(n) for n in rules))
    o.append('    &%sParser::create};' % name)
    o.append('  return *g;\n}')
    o.append('}  // namespace\n#endif')
    open('%s/%sParser.h' % (out, name), 'w').write('\n'.join(o) + '\n')
    o = []
    guard = 'VF_ANTLR_%s_LEXER_H' % name.upper()
    o.append('#ifndef %s\n#define %s\n#include "antlr4-runtime/antlr4-runtime.h"' % (guard, guard))
    o.append('namespace %s {' % ns)
    o.append('class %sLexer : public antlr4::Lexer {\n public:' % name)
    o.append('  explicit %sLexer(antlr4::ANTLRInputStream* in) : antlr4::Lexer(in, tables()) {}' % name)
    o.append('  static const antlr4::mini::LexGrammar& tables() {')
    o.append('    static const auto* g = new antlr4::mini::LexGrammar{')
    o.append('      {%s},' % emit_nodes(lex_nodes))
    o.append('      {%s},' % ', '.join(cstr(s) for s in strs))
    o.append('      {%s},' % ', '.join('{%d, {%s}}' % (1 if neg else 0, ', '.join(map(str, sorted(cs)))) for neg, cs in lex_sets))
    o.append('      {%s},' % ', '.join(map(str, lex_rule)))
    o.append('      {%s}};' % ', '.join('{%d, %d, %d}' % r for r in lex_roots))
    o.append('    return *g;\n  }\n};')
    o.append('}  // namespace\n#endif')
    open('%s/%sLexer.h' % (out, name), 'w').write('\n'.join(o) + '\n')


main()
