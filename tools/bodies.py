#!/usr/bin/env python3
"""bodies.py [name ...]: whole function bodies written another way (loops for unrolled text, unrolled text for
loops, another expansion of a determinant, ...), applied one at a time to /tmp/w/repo (next to a copy of /verif at
/tmp/w/verif); the checks named with each must stay quiet."""
import os, re, subprocess, sys, time
W = "/tmp/w"
R = []
def B(name, props, *edits):
    R.append((name, props.split(), edits))
def group(t, i):
    d = 0
    while True:
        d += (t[i] == "{") - (t[i] == "}")
        i += 1
        if d == 0:
            return i
def put(f, head, fn, body):
    p = W + "/repo/src/" + f
    t = open(p).read()
    for m in re.finditer(head, t):
        e = group(t, t.index("{", m.end() - 1))
        k = re.compile(r"fn %s\b[^{]*\{" % fn).search(t, m.end() - 1, e)
        if k:
            b = group(t, k.end() - 1)
            open(p, "w").write(t[: k.end()] + "\n" + body + "\n    }" + t[b:])
            return
    raise SystemExit("no %s in %s %s" % (fn, f, head))

def mm(n):
    return """        let mut c = M%d%d::new([[T::zero(); %d]; %d]);
        for i in 0..%d {
            for j in 0..%d {
                let mut s = self[(i, 0)] * rhs[(0, j)];
                for k in 1..%d {
                    s = s + self[(i, k)] * rhs[(k, j)];
                }
                c[(i, j)] = s;
            }
        }
        c""" % (n, n, n, n, n, n, n)
for n in (3, 4, 5, 6):
    B("mul%d" % n, "C01", ("matrix%dx%d.rs" % (n, n), r"impl<T: Num \+ Copy> Mul for M%d%d<T> \{" % (n, n), "mul", mm(n)))
    B("transpose%d" % n, "C03", ("matrix%dx%d.rs" % (n, n), r"impl<T[^{]*LinearAlgebra<T> for M%d%d<T> \{" % (n, n), "transpose",
      "        let mut t = *self;\n        for i in 0..%d {\n            for j in 0..i {\n                let x = t[(i, j)];\n                t[(i, j)] = t[(j, i)];\n                t[(j, i)] = x;\n            }\n        }\n        t" % n))
    B("norm%d" % n, "C04", ("matrix%dx%d.rs" % (n, n), r"impl<T[^{]*LinearAlgebra<T> for M%d%d<T> \{" % (n, n), "norm2",
      "        let mut s = T::zero();\n        for row in self.iter() {\n            for x in row.iter() {\n                s = s + *x * *x;\n            }\n        }\n        s.sqrt()"))
    B("trace%d" % n, "C04", ("matrix%dx%d.rs" % (n, n), r"impl<T[^{]*LinearAlgebra<T> for M%d%d<T> \{" % (n, n), "trace",
      "        (0..%d).fold(T::zero(), |s, i| s + self[(i, i)])" % n))
for n in (5, 6):
    B("det%d" % n, "C04 C05", ("matrix%dx%d.rs" % (n, n), r"impl<T[^{]*LinearAlgebra<T> for M%d%d<T> \{" % (n, n), "det",
      """        let mut d = T::zero();
        for j in 0..%d {
            let minor = self[(0, j)] * self.get_submatrix((0, j)).det();
            d = if j %% 2 == 0 { d + minor } else { d - minor };
        }
        d""" % n))
B("det4", "C04 C05 C06", ("matrix4x4.rs", r"impl<T[^{]*LinearAlgebra<T> for M44<T> \{", "det",
  """        // complementary 2x2 minors of the first two and the last two rows
        let s = |i: usize, j: usize| self[(0, i)] * self[(1, j)] - self[(0, j)] * self[(1, i)];
        let c = |i: usize, j: usize| self[(2, i)] * self[(3, j)] - self[(2, j)] * self[(3, i)];
        s(0, 1) * c(2, 3) - s(0, 2) * c(1, 3) + s(0, 3) * c(1, 2) + s(1, 2) * c(0, 3) - s(1, 3) * c(0, 2) + s(2, 3) * c(0, 1)"""))
for n in (4, 5, 6):
    B("inverse%d" % n, "C05", ("matrix%dx%d.rs" % (n, n), r"impl<T[^{]*LinearAlgebra<T> for M%d%d<T> \{" % (n, n), "inverse",
      """        let det = self.det();
        if nearly_zero(det) {
            return None;
        }
        let scale = T::one() / det;
        let mut adjugate = M%d%d::zeros();
        for i in 0..%d {
            for j in 0..%d {
                let minor = self.get_submatrix((j, i)).det();
                adjugate[(i, j)] = if (i + j) %% 2 == 1 { -minor } else { minor } * scale;
            }
        }
        Some(adjugate)""" % (n, n, n, n)))
    B("qr%d" % n, "C06", ("matrix%dx%d.rs" % (n, n), r"impl<T[^{]*LinearAlgebra<T> for M%d%d<T> \{" % (n, n), "qr",
      """        if nearly_zero(self.det()) {
            return None;
        }
        let mut q = M%d%d::zeros();
        let mut r = M%d%d::zeros();
        for j in 0..%d {
            let mut v = [T::zero(); %d];
            for i in 0..%d {
                v[i] = self[(i, j)];
            }
            for k in 0..j {
                let mut d = T::zero();
                for i in 0..%d {
                    d = d + q[(i, k)] * self[(i, j)];
                }
                r[(k, j)] = d;
                for i in 0..%d {
                    v[i] = v[i] - d * q[(i, k)];
                }
            }
            let mut n = T::zero();
            for x in v.iter() {
                n = n + *x * *x;
            }
            let n = n.sqrt();
            r[(j, j)] = n;
            for i in 0..%d {
                q[(i, j)] = v[i] / n;
            }
        }
        Some((q, r))""" % ((n,) * 10)))
def lu(n):
    return """        const N: usize = %d;
        let tiny = T::from(1e-40).unwrap();
        let mut indx: V%d<usize> = V%d::zeros();
        let mut lu = *self;
        let mut scale = [T::zero(); N];
        let mut d = T::one();
        let mut big = T::zero();
        for (i, s) in scale.iter_mut().enumerate() {
            for x in lu[i].iter() {
                if x.abs() > big {
                    big = x.abs();
                }
            }
            if big == T::zero() {
                panic!("the matrix should be non zero")
            }
            *s = T::one() / big;
        }
        for k in 0..N {
            let mut best = T::zero();
            let mut pivot = k;
            for i in k..N {
                let weight = scale[i] * lu[(i, k)].abs();
                if weight > best {
                    best = weight;
                    pivot = i;
                }
            }
            if pivot != k {
                let row = lu[k];
                lu[k] = lu[pivot];
                lu[pivot] = row;
                scale[pivot] = scale[k];
                d = -d;
            }
            indx[k] = pivot;
            if lu[(k, k)] == T::zero() {
                lu[(k, k)] = tiny;
            }
            let top = lu[k];
            for i in (k + 1)..N {
                let factor = lu[(i, k)] / top[k];
                lu[(i, k)] = factor;
                for j in (k + 1)..N {
                    lu[(i, j)] = lu[(i, j)] - factor * top[j];
                }
            }
        }
        let mut det = d;
        for i in 0..N {
            det = det * lu[(i, i)];
        }
        (lu, det, indx)""" % (n, n, n)
for n in (2, 3, 4, 5, 6):
    B("lu%d" % n, "C07", ("matrix%dx%d.rs" % (n, n), r"impl<T: Float> M%d%d<T> \{" % (n, n), "lu", lu(n)))
def vop(n, op):
    return "        let mut r = self;\n        for i in 0..%d {\n            r[i] = r[i] %s rhs[i];\n        }\n        r" % (n, op)
for n in (2, 3, 4, 5, 6):
    B("vec%d" % n, "C09 C02 C10",
      ("vector%d.rs" % n, r"impl<T: Num \+ Copy> Add for V%d<T> \{" % n, "add", vop(n, "+")),
      ("vector%d.rs" % n, r"impl<T: Num \+ Copy> Sub for V%d<T> \{" % n, "sub", vop(n, "-")),
      ("vector%d.rs" % n, r"impl<T: Num \+ Copy> Mul for V%d<T> \{" % n, "mul",
       "        self.iter().zip(rhs.iter()).fold(T::zero(), |s, (a, b)| s + *a * *b)"))
def sh(c, cwd):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu"))
for name, props, edits in R:
    if sys.argv[1:] and name not in sys.argv[1:]:
        continue
    sh("git checkout -q -f .", W + "/repo")
    for e in edits:
        put(*e)
    r = sh("cargo test --offline 2>&1 | grep -E '^error|FAILED|panicked' -A6 | head -20", W + "/repo")
    print("==", name, r.stdout or "applied, tests pass", flush=True)
    if r.stdout:
        continue
    for p in props:
        t = time.time()
        r = sh("./check %s quick" % p, W + "/verif")
        lines = [l[:230] for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "undecided", "vacuous"))]
        print("  ", p, "rc=%d" % r.returncode, "%.1fs" % (time.time() - t), " | ".join(lines[-3:]) if r.returncode or lines else "", r.stderr[-300:] if r.returncode == 2 else "", flush=True)
sh("git checkout -q -f .", W + "/repo")
