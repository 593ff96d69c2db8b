"""generates C++ classes for protocol buffers from the .proto files of the repository (a minimal stand-in for protoc:
accessors of the fields with their types, enumerations and oneofs; no serialisation)"""
import os
import re
PRIM = {'double': 'double', 'float': 'float', 'bool': 'bool', 'string': 'std::string', 'bytes': 'std::string', 'int32': 'int32_t', 'sint32': 'int32_t',
        'sfixed32': 'int32_t', 'int64': 'int64_t', 'sint64': 'int64_t', 'sfixed64': 'int64_t', 'uint32': 'uint32_t', 'fixed32': 'uint32_t', 'uint64': 'uint64_t', 'fixed64': 'uint64_t'}


def block(tokens, i):
    """tokens of the braces that open at i, and the place behind them"""
    depth, j = 0, i
    while True:
        depth += {'{': 1, '}': -1}.get(tokens[j], 0)
        j += 1
        if not depth:
            return tokens[i + 1:j - 1], j


def enum(name, body, outer):
    """values of a nested enumeration carry the name of the message"""
    values = re.findall(r'(\w+) = (-?\w+) ;', ' '.join(body))
    full = f'{outer}_{name}' if outer else name
    text = [f'enum {full} : int {{ ' + ', '.join((f'{full}_{v}' if outer else v) + f' = {n}' for v, n in values) + ' };']
    return full, values, text


def message(pkg, name, body, enums, out):
    fields, inner, i, oneof = [], [], 0, None
    local = {}
    while i < len(body):
        t = body[i]
        if t == 'enum':
            b, j = block(body, i + 2)
            full, values, text = enum(body[i + 1], b, name)
            out += text
            local[body[i + 1]] = full
            inner.append(f'  using {body[i + 1]} = {full};')
            inner += [f'  static constexpr {full} {v} = {full}_{v};' for v, _ in values]
            i = j
        elif t == 'oneof':
            b, j = block(body, i + 2)
            oneof = body[i + 1]
            for m in re.finditer(r'([\w.]+) (\w+) = (\d+) ;', ' '.join(b)):
                fields.append(('oneof', m.group(1), m.group(2), m.group(3)))
            i = j
        elif t in ('option', 'reserved'):
            while body[i] != ';':
                i += 1
            i += 1
        elif t == ';':
            i += 1
        else:
            label = t if t in ('repeated', 'optional') else ''
            i += 1 if label else 0
            fields.append((label, body[i], body[i + 1], body[i + 3]))
            while body[i] != ';':
                i += 1
            i += 1

    def ctype(t):
        if t in PRIM:
            return PRIM[t], True
        if t in local:
            return local[t], True
        q = t.replace('.', '::')
        if t in enums or f'{pkg}.{t}' in enums:
            return q, True
        return (q if '.' in t else f'{pkg}::{q}'), False

    text = [f'class {name}', '{', 'public:'] + inner
    data = []
    for label, t, n, k in fields:
        c, value = ctype(t)
        pass_ = c if value and c != 'std::string' else f'const {c} &'
        if label == 'repeated':
            text += [f'  const std::vector<{c}> & {n}() const {{ return {n}_; }}', f'  std::vector<{c}> * mutable_{n}() {{ return &{n}_; }}',
                     f'  int {n}_size() const {{ return static_cast<int>({n}_.size()); }}', f'  {pass_} {n}(int i) const {{ return {n}_[i]; }}', f'  void clear_{n}() {{ {n}_.clear(); }}']
            text += [f'  void add_{n}({pass_} v) {{ {n}_.push_back(v); }}'] if value else [f'  {c} * add_{n}() {{ {n}_.emplace_back(); return &{n}_.back(); }}']
            data.append(f'  std::vector<{c}> {n}_;')
            continue
        case = f'{oneof}_case_ = {k}; ' if label == 'oneof' else ''
        text.append(f'  {pass_} {n}() const {{ return {n}_; }}')
        if value:
            text.append(f'  void set_{n}({pass_} v) {{ {case}{n}_ = v; }}')
        if not value or c == 'std::string':
            text += [f'  {c} * mutable_{n}() {{ {case}{n}_set_ = true; return &{n}_; }}', f'  bool has_{n}() const {{ return ' + (f'{oneof}_case_ == {k}' if case else f'{n}_set_') + '; }']
            data.append(f'  bool {n}_set_ = false;')
        text.append(f'  void clear_{n}() {{ {n}_ = {{}}; }}')
        init = '{}' if not value or t in PRIM else f'{{static_cast<{c}>(0)}}'
        data.append(f'  {c} {n}_{init};')
    if oneof:
        camel = lambda s: ''.join(w.capitalize() for w in s.split('_'))
        text.append(f'  enum {camel(oneof)}Case {{ ' + ', '.join(f'k{camel(n)} = {k}' for l, _, n, k in fields if l == 'oneof') + f', {oneof.upper()}_NOT_SET = 0 }};')
        text.append(f'  {camel(oneof)}Case {oneof}_case() const {{ return static_cast<{camel(oneof)}Case>({oneof}_case_); }}')
        data.append(f'  int {oneof}_case_ = 0;')
    text += [f'  void CopyFrom(const {name} & o) {{ *this = o; }}', f'  void Clear() {{ *this = {name}(); }}', 'private:'] + data + ['};']
    out += text


def generate(repo, out):
    src = repo + '/simulation/simulation_interface/proto'
    files = {f[:-6]: open(f'{src}/{f}').read() for f in sorted(os.listdir(src)) if f.endswith('.proto')}
    parsed, enums = {}, set()
    for f, s in files.items():
        s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
        s = re.sub(r'//[^\n]*', ' ', s)
        tokens = re.findall(r'"[^"]*"|[\w.]+|-\d+|[{}=;\[\],<>()]', s)
        pkg = tokens[tokens.index('package') + 1]
        parsed[f] = (pkg, tokens)
        enums |= {f'{pkg}.{tokens[i + 1]}' for i, t in enumerate(tokens) if t == 'enum'}
    os.makedirs(out + '/simulation_interface', exist_ok=True)
    for f, (pkg, tokens) in parsed.items():
        g = f'{f}_PB_H_'.upper()
        text = ['// generated from ' + f + '.proto', f'#ifndef {g}', f'#define {g}', '#include <cstdint>', '#include <string>', '#include <vector>']
        text += [f'#include <simulation_interface/{tokens[i + 1][1:-7]}.pb.h>' for i, t in enumerate(tokens) if t == 'import']
        text += [f'namespace {pkg}', '{']
        i = 0
        while i < len(tokens):
            if tokens[i] in ('message', 'enum'):
                body, j = block(tokens, i + 2)
                if tokens[i] == 'enum':
                    text += enum(tokens[i + 1], body, '')[2]
                else:
                    message(pkg, tokens[i + 1], body, enums, text)
                i = j
            else:
                i += 1
        text += ['}', '#endif', '']
        open(f'{out}/simulation_interface/{f}.pb.h', 'w').write('\n'.join(text))
