"""generates C++ structs for ROS messages: those of the repository from its own .msg files, external ones from
msg/msgs.txt (a minimal stand-in for rosidl: data members, defaults, constants, ==, build<>())"""
import os
import re
PRIM = {'bool': 'bool', 'byte': 'uint8_t', 'char': 'uint8_t', 'float32': 'float', 'float64': 'double', 'string': 'std::string',
        **{f'{u}int{n}': f'{u}int{n}_t' for u in ('', 'u') for n in (8, 16, 32, 64)}}


def snake(s):
    s = re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', s)
    return re.sub(r'([A-Z]+)([A-Z][a-z])', r'\1_\2', s).lower()


def parse(text):
    fields, consts = [], []
    for line in text.split('\n'):
        line = re.sub(r'#.*', '', line).strip()
        if not line:
            continue
        m = re.match(r'(\S+)\s+(\w+)\s*=\s*(.+)$', line)
        if m:
            consts.append(m.groups())
            continue
        m = re.match(r'(\S+)\s+(\w+)(?:\s+(.+))?$', line)
        fields.append(m.groups())
    return fields, consts


def generate(repo, out):
    here = os.path.dirname(os.path.abspath(__file__))
    msgs = {}
    cur = None
    for line in open(here + '/msg/msgs.txt'):
        m = re.match(r'\[(\w+)/(\w+)\]', line)
        if m:
            cur = m.groups()
            msgs[cur] = ''
        elif cur:
            msgs[cur] += line
    for pkg, d in (('traffic_simulator_msgs', '/simulation/traffic_simulator_msgs/msg'),):
        for f in sorted(os.listdir(repo + d)):
            if f.endswith('.msg'):
                msgs[pkg, f[:-4]] = open(repo + d + '/' + f).read()
    for (pkg, name), text in msgs.items():
        fields, consts = parse(text)
        inc, body, builder = set(), [], []
        for t, n, v in consts:
            if t in PRIM and t != 'string':
                body.append(f'  static constexpr {PRIM[t]} {n} = {v};')
        types = []
        for t, n, v in fields:
            m = re.match(r'([\w/]+?)(<=\d+)?(\[(<=)?(\d*)\])?$', t)
            base, arr, bound, cnt = m.group(1), m.group(3), m.group(4), m.group(5)
            if base in PRIM:
                ct = PRIM[base]
            else:
                p, _, q = base.rpartition('/')
                p = p or pkg
                inc.add(f'{p}/msg/{snake(q)}.hpp')
                ct = f'{p}::msg::{q}'
            if arr:
                ct = f'std::array<{ct}, {cnt}>' if cnt and not bound else f'std::vector<{ct}>'
            types.append((ct, n))
            init = '{}' if v is None else (f'{{{v}}}' if base != 'string' else f'{{{v}}}')
            body.append(f'  {ct} {n}{init};')
        g = f'{pkg}__MSG__{name}'.upper() + '_'
        fq = f'{pkg}::msg::{name}'
        eq = ' && '.join(f'{n} == o.{n}' for _, n in types) or 'true'
        text = [f'// generated from {pkg}/{name}', f'#ifndef {g}', f'#define {g}', '#include <array>', '#include <cstdint>',
                '#include <memory>', '#include <string>', '#include <vector>', '#include <rosmsg.hpp>'] + [f'#include <{i}>' for i in sorted(inc)]
        text += [f'namespace {pkg}::msg', '{', f'struct {name}', '{', '  using SharedPtr = std::shared_ptr<' + name + '>;',
                 '  using ConstSharedPtr = std::shared_ptr<const ' + name + '>;', f'  using UniquePtr = std::unique_ptr<{name}>;'] + body
        text += [f'  bool operator==(const {name} & o) const {{ return {eq}; }}', f'  bool operator!=(const {name} & o) const {{ return !(*this == o); }}', '};']
        # builder chain: Init_0 -> Init_1 -> ... -> message
        text += ['namespace builder', '{']
        k = len(types)
        for i in range(k - 1, -1, -1):
            ct, n = types[i]
            nxt = f'Init_{name}_{i + 1}' if i + 1 < k else name
            text += [f'struct Init_{name}_{i}', '{', f'  {name} msg;']
            if i + 1 < k:
                text += [f'  {nxt} {n}({ct} arg) {{ msg.{n} = std::move(arg); return {nxt}{{std::move(msg)}}; }}']
            else:
                text += [f'  {name} {n}({ct} arg) {{ msg.{n} = std::move(arg); return std::move(msg); }}']
            text += ['};']
        if k:
            text += [f'inline Init_{name}_0 start(const {name} *) {{ return {{}}; }}']
        text += ['}', '}', f'namespace {pkg}', '{', '#ifndef ' + pkg.upper() + '_BUILD_', '#define ' + pkg.upper() + '_BUILD_',
                 'template <typename T>', 'auto build() { return start(static_cast<const T *>(nullptr)); }', '#endif', '}', '#endif', '']
        t = '\n'.join(text).replace('auto build() { return start(', 'auto build() { return rosmsg_start<T>(')
        # each message specialises the starting point, so that build<> needs no argument-dependent lookup
        t = t.replace(f'return rosmsg_start<T>(static_cast<const T *>(nullptr)); }}', 'return ::rosmsg::Start<T>::start(); }')
        t += f'#ifndef {g}S\n#define {g}S\nnamespace rosmsg\n{{\n' + (f'template <>\nstruct Start<{fq}> {{ static {pkg}::msg::builder::Init_{name}_0 start() {{ return {{}}; }} }};\n' if k else '') + '}\n#endif\n'
        t = t.replace(f'inline Init_{name}_0 start(const {name} *) {{ return {{}}; }}\n', '')
        d = f'{out}/{pkg}/msg'
        os.makedirs(d, exist_ok=True)
        with open(f'{d}/{snake(name)}.hpp', 'w') as f:
            f.write(t)


if __name__ == '__main__':
    import sys
    generate(sys.argv[1], sys.argv[2])
