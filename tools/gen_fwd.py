"""Writes h/fwd2.h and h/fwd3.h: for each FMI function a recorder with the signature of the standard,
the arguments the importer is called with, and the importer call. Run by hand when the API headers change."""
import os, re, sys

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCALAR = {'fmi2Boolean': '(fmi2Boolean)in_i32()', 'fmi2Real': 'in_f64()', 'fmi2StatusKind': '(fmi2StatusKind)in_range(0, 3)',
          'fmi3Boolean': 'in_bool()', 'fmi3Float64': 'in_f64()', 'fmi3ValueReference': 'in_u32()'}
SKIP = ('Instantiate', 'FreeInstance', 'GetVersion', 'GetTypesPlatform')


def strip(s):
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    return re.sub(r'//[^\n]*', ' ', s)


def params(s):
    r = []
    for p in re.split(r',', s):
        p = ' '.join(p.split())
        m = re.fullmatch(r'(.*?[\s*])(\w+)\s*(\[\])?', p)
        t = m.group(1).replace(' *', '*').strip()
        r.append((t, m.group(2), bool(m.group(3))))
    return r


def main():
    for v in (2, 3):
        imp = strip(open(f'{REPO}/include/FMI{v}.h').read())
        out = [f'/* generated by tools/gen_fwd.py */']
        n = 0
        seen = set()
        for m in re.finditer(rf'FMI_STATIC\s+FMIStatus\s+FMI{v}(\w+)\s*\(([^)]*)\)', imp):
            name, ps = m.group(1), params(m.group(2))
            if name.startswith(SKIP) or name in seen:
                continue
            seen.add(name)
            out.append(f'{"#if" if n == 0 else "#elif"} VP_F == {n}')
            out.append(f'#define FN {name}')
            decl, init, cond, args, sig = [], [], [], [], []
            count = 0
            for i, (t, pn, arr) in enumerate(ps[1:], 1):
                base = t.replace('const ', '').strip()
                sig.append(f'{t} a{i}{"[]" if arr else ""}')
                args.append(f'e{i}')
                if arr or base.endswith('*'):
                    el = base.rstrip('*').strip()
                    decl.append(f'static {el} e{i}[4];')
                    if el == f'fmi{v}String':
                        init.append(f'for (int i = 0; i < 4; i++) e{i}[i] = "s";'.replace(f'e{i}[i]', f'e{i}[i]'))
                    elif el == f'fmi{v}Binary':
                        init.append(f'for (int i = 0; i < 4; i++) e{i}[i] = bytes;')
                    elif pn == 'sizes':
                        init.append(f'for (int i = 0; i < 4; i++) e{i}[i] = i % 3;')
                    elif el in ('fmi2EventInfo',):
                        pass
                    cond.append(f'a{i} == e{i}')
                elif base == 'size_t':
                    count += 1
                    decl.append(f'static size_t e{i} = {count};')
                    cond.append(f'a{i} == e{i}')
                elif base in (f'fmi{v}FMUstate', f'fmi{v}FMUState'):
                    decl.append(f'static {base} e{i} = bytes + {i};')
                    cond.append(f'a{i} == e{i}')
                else:
                    decl.append(f'static {base} e{i};')
                    init.append(f'e{i} = {SCALAR[base]};')
                    cond.append(f'SAME(a{i}, e{i})')
            out += decl
            out.append(f'static void arguments(void) {{ {" ".join(init)} }}')
            out.append(f'static fmi{v}Status recorder({", ".join([f"{'fmi2Component' if v == 2 else 'fmi3Instance'} a0"] + sig)}) {{ return received({" && ".join(["a0 == COMPONENT"] + cond)}); }}')
            out.append(f'static FMIStatus forward(FMIInstance *m) {{ return FMI{v}{name}({", ".join(["m"] + args)}); }}')
            n += 1
        out.append('#endif')
        out.append(f'#define FUNCTIONS {n}')
        open(f'{HERE}/h/fwd{v}.h', 'w').write('\n'.join(out) + '\n')
        print(v, n)
        body = re.search(rf'struct FMI{v}Functions_ \{{(.*?)\}};', imp, re.S).group(1)
        syms = re.findall(rf'\*\s*fmi{v}(\w+);', body)
        cut = (syms.index('EnterEventMode'), syms.index('SetRealInputDerivatives')) if v == 2 else (len(syms), len(syms))
        with open(f'{HERE}/h/sym{v}.h', 'w') as o:
            o.write('/* generated by tools/gen_fwd.py */\n')
            for nm, l in (('COMMON', syms[:cut[0]]), ('ME', syms[cut[0]:cut[1]]), ('CS', syms[cut[1]:])):
                o.write(f'#define SYMS_{nm}(X) ' + ' '.join(f'X({x})' for x in l) + '\n')


main()
