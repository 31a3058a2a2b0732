"""Regenerates analysis/panicdocs.txt: the library functions whose documentation
has a `# Panics` section (core, alloc, std and the crates caio/foca uses), as
`Type::name` or `Trait::name`.  A development tool: the checks read the list."""
import re, os, sys, glob
ROOTS = [os.path.expanduser('~/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/src/rust/library/' + x) for x in ('core/src', 'alloc/src', 'std/src')]
REG = glob.glob(os.path.expanduser('~/.cargo/registry/src/*'))[0]
ROOTS += [REG + '/' + x + '/src' for x in ('bincode-2.0.1', 'bytes-1.12.1', 'postcard-1.1.3', 'rand-0.9.5', 'rand_core-0.9.5', 'serde-1.0.229', 'serde_core-1.0.229', 'tracing-0.1.44', 'tracing-core-0.1.36')]
# panics only when a capacity overflows the address space: assumed away with allocation failure
SPACE = re.compile(r'capacity (exceeds|overflows)|overflows? .?usize|exceeds `isize::MAX|allocat')
out = set()
for root in ROOTS:
    for d, _, fs in os.walk(root):
        if '/tests' in d or '/os/' in d:
            continue
        for fn in fs:
            if not fn.endswith('.rs'):
                continue
            ctx, doc, pan = [], False, []
            stem = fn[:-3] if fn not in ('mod.rs', 'lib.rs') else os.path.basename(d)
            cur = stem
            for l in open(os.path.join(d, fn), errors='replace'):
                s = l.strip()
                m = re.match(r'(?:unsafe )?(?:const )?impl(?:<.*?>)? (?:const )?(?:.* for )?&?(?:mut )?([\w\[\]]+)', s)
                if not l.startswith((' ', '\t')) and m:
                    cur = m.group(1)
                m = re.match(r'(?:pub(?:\([^)]*\))? )?(?:unsafe )?(?:const )?(?:auto )?trait (\w+)', s)
                if not l.startswith((' ', '\t')) and m:
                    cur = m.group(1)
                if l.startswith('}'):
                    cur = stem
                md = re.match(r'(?:///|#\[doc = (?:concat!\()?")(.*)', s)
                if md:
                    t = md.group(1).strip()
                    if re.match(r'#+ ', t):
                        doc = bool(re.match(r'#+ Panics', t))
                        if doc:
                            pan = ['']
                    elif doc:
                        pan[0] += ' ' + t
                    continue
                m = re.match(r'(?:pub(?:\([^)]*\))? )?(?:default )?(?:const )?(?:async )?(?:unsafe )?(?:extern "[^"]*" )?fn (\w+)', s)
                if m:
                    if pan and not (SPACE.search(pan[0]) and len(re.findall(r'[Pp]anics', pan[0])) <= 1):
                        out.add(cur + '::' + m.group(1))
                    doc, pan = False, []
                elif s and not s.startswith(('#', '//', ')', '"')) :
                    if not re.match(r'[\w" ,=()\[\]#:./`\\-]*$', s) or s.startswith(('pub struct', 'pub enum', 'impl', 'use ', 'mod ')):
                        doc, pan = False, []
# only with more elements than the address space holds, or comparisons that are no order
out = {x for x in out if not re.match(r'Iterator::(count|enumerate|last|position)$|\[T\]::(sort|partial_sort)', x)}
# arithmetic that inherits the caller's overflow checks, undocumented
for t in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Neg', 'Shl', 'Shr'):
    out |= {t + '::' + t.lower(), t + 'Assign::' + t.lower() + '_assign'}
out |= {'Index::index', 'IndexMut::index_mut', 'uint_macros::pow', 'int_macros::pow', 'int_macros::abs', 'Sum::sum', 'Product::product', 'process::abort', 'process::exit'}
for x in sorted(out):
    print(x)
