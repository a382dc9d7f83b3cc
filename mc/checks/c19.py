"""C19 linear algebra"""
import itertools
from math import cos, pi, sin, sqrt

import alpha
import ref
from engine import Group, Violation, close, close_mat, close_vec, grid, in_range
from openspace.math.linalg import Matrix3by6, Matrix3D, Matrix6by3, Matrix6D, Vector3D, Vector6D

DIRS = [d for d in itertools.product((-1.0, 0.0, 1.0), repeat=3) if any(d)]

MAKE = {
    (3, 3): lambda m: Matrix3D(*[Vector3D(*r) for r in m]),
    (3, 6): lambda m: Matrix3by6(*[Vector6D(*r) for r in m]),
    (6, 3): lambda m: Matrix6by3(*[Vector3D(*r) for r in m]),
    (6, 6): lambda m: Matrix6D(*[Vector6D(*r) for r in m]),
}
READ = {Matrix3D: alpha.m3, Matrix3by6: alpha.m36, Matrix6by3: alpha.m63, Matrix6D: alpha.m6}


def read(obj):
    for cls, fn in READ.items():
        if isinstance(obj, cls):
            return fn(obj)
    if isinstance(obj, Vector6D):
        return list(alpha.t6(obj))
    if isinstance(obj, Vector3D):
        return list(alpha.t3(obj))
    return obj


def same(got, want, what):
    """exact equality of shape and elements (the operands are small integers times powers of two)"""
    g = read(got)
    if g != want:
        raise Violation(f"{what}: got {g}, wanted {want}")


def make(m):
    return MAKE[len(m), len(m[0])](m)


def vec(v):
    return Vector3D(*v) if len(v) == 3 else Vector6D(*v)


def outer(n, m, i, j, s):
    return [[s if (r, c) == (i, j) else 0.0 for c in range(m)] for r in range(n)]


# left shape, right shape, method
PRODUCTS = [
    ((3, 3), (3, 6), "multiply_matrix3by6"),
    ((3, 6), (6, 3), "multiply_matrix_6by3"),
    ((6, 3), (3, 3), "multiply"),
    ((6, 3), (3, 6), "multiply_matrix3by6"),
    ((6, 6), (6, 3), "multiply_matrix_6by3"),
    ((6, 6), (6, 6), "multiply_matrix"),
]
SUMS = [((3, 3), "plus", 1), ((6, 6), "plus", 1), ((6, 6), "minus", -1)]


def basis_operand(shape, k):
    return outer(*shape, k // shape[1], k % shape[1], 1.0)


def dense(shape, k, scale):
    n, m = shape
    return [[float((7 * i + 11 * j + 5 * k + 3 * i * j * (k % 4)) % 23 - 9) * scale for j in range(m)] for i in range(n)]


def products(a, b, name, what):
    left, right = make(a), make(b)
    same(getattr(left, name)(right), ref.matmul(a, b), f"{name} of {what}")
    same(left, a, f"left operand after {name} of {what}")
    same(right, b, f"right operand after {name} of {what}")


def run_product(case, ctx):
    """one basis element on the left, all on the right: decides the bilinear map"""
    p, k, s = case
    ls, rs, name = PRODUCTS[p]
    a = ref.mscale(basis_operand(ls, k), s)
    for q in range(rs[0] * rs[1]):
        products(a, basis_operand(rs, q), name, f"basis elements {k} (times {s}) and {q} of {ls} and {rs}")
        ctx.step()
    ctx.state(*case)
    ctx.outcome(p, k)


def run_dense(case, ctx):
    k, s, t = case
    for ls, rs, name in PRODUCTS:
        products(dense(ls, k, s), dense(rs, k + 1, t), name, f"dense operands {case} of {ls} and {rs}")
        ctx.step()
    for shape, name, sign in SUMS:
        a, b = dense(shape, k, s), dense(shape, k + 2, t)
        left, right = make(a), make(b)
        same(getattr(left, name)(right), ref.madd(a, ref.mscale(b, float(sign))), f"{name} of dense operands {case} of {shape}")
        same(left, a, "left operand")
        same(right, b, "right operand")
        ctx.step()
    for shape in MAKE:
        a = dense(shape, k, s)
        m = make(a)
        same(m.transpose(), ref.transpose(a), f"transpose of {case} of {shape}")
        for c in range(shape[1]):
            same(getattr(m, f"column_{c + 1}")(), [r[c] for r in a], f"column {c + 1} of {case} of {shape}")
        v = [float((3 * i + k) % 7 - 3) * t for i in range(shape[1])]
        same(m.multiply_vector(vec(v)), list(ref.matvec(a, v)), f"product with a vector of {case} of {shape}") if hasattr(m, "multiply_vector") else None
        if shape[0] == shape[1]:
            same(m.diagonal(), [a[i][i] for i in range(shape[0])], f"diagonal of {case} of {shape}")
        same(m, a, "operand")
        ctx.step(3)
    a = dense((3, 3), k, s)
    same(make(a).scaled(t), ref.mscale(a, t), f"scaled matrix {case}")
    same(Matrix6D.identity(), ref.eye(6), "identity")
    ctx.state(*case)
    ctx.outcome(k)


def run_single(case, ctx):
    """basis elements of every shape through every unary operation and the product with every basis vector"""
    shape, k = tuple(case[0]), case[1]
    a = basis_operand(shape, k)
    m = make(a)
    same(m.transpose(), ref.transpose(a), f"transpose of basis element {k} of {shape}")
    for c in range(shape[1]):
        same(getattr(m, f"column_{c + 1}")(), [r[c] for r in a], f"column {c + 1} of basis element {k} of {shape}")
        v = [1.0 if i == c else 0.0 for i in range(shape[1])]
        same(m.multiply_vector(vec(v)), list(ref.matvec(a, v)), f"basis element {k} of {shape} times basis vector {c}")
        ctx.step(2)
    if shape[0] == shape[1]:
        same(m.diagonal(), [a[i][i] for i in range(shape[0])], f"diagonal of basis element {k} of {shape}")
        for q in range(shape[0] * shape[1]):
            b = basis_operand(shape, q)
            same(m.plus(make(b)), ref.madd(a, b), f"sum of basis elements {k}, {q}")
            if shape == (6, 6):
                same(m.minus(make(b)), ref.msub(a, b), f"difference of basis elements {k}, {q}")
            ctx.step()
    if shape == (3, 3):
        for t in (0.0, 1.0, -2.5, 2.0**40):
            same(m.scaled(t), ref.mscale(a, t), f"basis element {k} scaled by {t}")
    ctx.state(*case)
    ctx.outcome(shape, k)


INTS = [-2.0, 0.0, 1.0, 3.0]
SCALES = [1.0, 2.0**-40, 2.0**40]


def run_vec(case, ctx):
    """all pairs of small integer vectors"""
    a, s = tuple(case[0]), case[1]
    a = ref.mul(a, s)
    va = Vector3D(*a)
    close(va.magnitude(), ref.norm(a), 1e-15 * ref.norm(a) * 4, f"magnitude of {a}")
    if any(a):
        close_vec(alpha.t3(va.normalized()), ref.unit(a), 4e-15, f"unit vector of {a}")
    for t in (0.0, 1.0, -1.0, 0.5, -3.0, 2.0**30, 2.0**-30):
        same(va.scaled(t), list(ref.mul(a, t)), f"{a} scaled by {t}")
    same(va.copy(), list(a), f"copy of {a}")
    for b in itertools.product(INTS, repeat=3):
        vb = Vector3D(*b)
        same(va.plus(vb), list(ref.add(a, b)), f"{a} plus {b}")
        same(va.minus(vb), list(ref.sub(a, b)), f"{a} minus {b}")
        same(va.dot(vb), ref.dot(a, b), f"{a} dot {b}")
        c = alpha.t3(va.cross(vb))
        close_vec(c, ref.cross(a, b), 0, f"{a} cross {b}")
        if any(a) and any(b):
            th = va.angle(vb)
            want = ref.angle(a, b)
            in_range(th, 0, pi, f"angle of {a} and {b}", slack=0)
            close(th, want, 2e-14 if 0.1 < want < 3.0 else 1e-7, f"angle of {a} and {b}")
            close(vb.angle(va), want, 2e-14 if 0.1 < want < 3.0 else 1e-7, f"angle of {b} and {a}")
        same(va, list(a), "operand")
        same(vb, list(b), "operand")
        ctx.step(5)
    ctx.state(a, s)
    ctx.outcome(a)


def run_vec6(case, ctx):
    k, s, t = case
    a = [float((5 * i + k) % 11 - 5) * s for i in range(6)]
    for j in range(14):
        b = [float((3 * i * (j + 1) + 2 * k) % 13 - 6) * t for i in range(6)] if j >= 6 else [t if i == j else 0.0 for i in range(6)]
        va, vb = Vector6D(*a), Vector6D(*b)
        same(va.plus(vb), [x + y for x, y in zip(a, b)], f"{a} plus {b}")
        same(va.minus(vb), [x - y for x, y in zip(a, b)], f"{a} minus {b}")
        same(va.dot(vb), sum(x * y for x, y in zip(a, b)), f"{a} dot {b}")
        same(vb.dot(va), sum(x * y for x, y in zip(a, b)), f"{b} dot {a}")
        same(Vector6D.from_position_and_velocity(Vector3D(*a[:3]), Vector3D(*b[:3])), a[:3] + b[:3], "position and velocity")
        same(va.copy(), a, "copy")
        ctx.step(5)
    ctx.state(*case)
    ctx.outcome(k)


def run_inverse(case, ctx):
    """all 3x3 matrices with the given rows 1 and 2 and every row 3"""
    r1, r2, sc = case
    for r3 in itertools.product((-1.0, 0.0, 1.0, 2.0), repeat=3):
        rows = [[x * s for x in r] for r, s in zip((r1, r2, r3), sc)]
        m = make(rows)
        (a, b, c), (d, e, f), (g, h, i) = rows
        det = a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)
        scale = sc[0] * sc[1] * sc[2]
        close(m.determinant(), det, 1e-15 * scale, f"determinant of {rows}")
        cof = [[e * i - f * h, f * g - d * i, d * h - e * g], [c * h - b * i, a * i - c * g, b * g - a * h], [b * f - c * e, c * d - a * f, a * e - b * d]]
        close_mat(alpha.m3(m.cofactor()), cof, 0, f"cofactors of {rows}")
        close_mat(alpha.m3(m.adjugate()), ref.transpose(cof), 0, f"adjugate of {rows}")
        if det:
            inv = alpha.m3(m.inverse())
            for j in range(3):
                for k in range(3):
                    want = cof[k][j] / det
                    close(inv[j][k], want, 1e-14 * abs(want), f"inverse of {rows}, element ({j + 1}, {k + 1})")
            prod = ref.matmul(rows, inv)
            for j in range(3):
                for k in range(3):
                    close(prod[j][k] * sc[k] / sc[j], 1.0 if j == k else 0.0, 1e-13, f"{rows} times its inverse, element ({j + 1}, {k + 1})")
            ctx.step()
            ctx.outcome(det)
        same(m, rows, "operand")
        ctx.step(3)
    ctx.state(*case)


def inverse_cases(tier):
    ent = (-1.0, 0.0, 1.0)
    rows = [list(r) for r in itertools.product(ent, repeat=3)]
    sc = [(1.0, 1.0, 1.0), (2.0**-20, 2.0**-20, 2.0**-20), (2.0**-30, 1.0, 2.0**20), (2.0**-40, 2.0**-40, 2.0**-40), (2.0**-70, 2.0**-75, 2.0**-66), (2.0**12, 2.0**16, 2.0**14)]
    if tier == "thorough":
        rows = [list(r) for r in itertools.product((-2.0, -1.0, 0.0, 1.0, 3.0), repeat=3)]
        sc += [(2.0**30, 2.0**30, 2.0**30), (1.0, 2.0**-50, 1.0)]
    return grid(rows, rows, [list(s) for s in sc])


def run_edits(case, ctx):
    """vectors and matrices changed in place: every operation works on the current elements, results are the caller's"""
    seq = case
    vals = [[2.0, -1.0, 3.0], [0.0, 4.0, 1.0], [5.0, 2.0, -2.0]]
    m, v, w = make(vals), Vector3D(3.0, -4.0, 12.0), Vector3D(1.0, 2.0, 2.0)
    a, b = [3.0, -4.0, 12.0], [1.0, 2.0, 2.0]
    s6 = [1.0, -2.0, 3.0, 0.5, 4.0, -8.0]
    v6 = Vector6D(*s6)
    m6 = dense((6, 6), 3, 1.0)
    mm = make(m6)
    for op in (None, *seq):
        if op == "v":
            v.y = a[1] = a[1] * 2 + 1.0
        elif op == "w":
            w.x, w.z = b[0], b[2] = b[2] - 5.0, b[0] + 3.0
        elif op == "cell":
            m.row2.x = vals[1][0] = vals[1][0] + 7.0
        elif op == "row":
            vals[2] = [vals[2][1], 1.0 - vals[2][2], vals[2][0] + 6.0]
            m.row3 = Vector3D(*vals[2])
        elif op == "six":
            v6.vy = s6[4] = s6[4] + 1.5
            mm.row5.vx = m6[4][3] = m6[4][3] - 2.0
        elif op == "tiny":
            v.z = a[2] = a[2] + 2.0**-30
            m.row1.y = vals[0][1] = vals[0][1] + 2.0**-30
        what = f"after {seq}"
        outs = []
        for got, want, nm in (
            (v.plus(w), list(ref.add(a, b)), "sum"), (v.minus(w), list(ref.sub(a, b)), "difference"), (v.cross(w), list(ref.cross(a, b)), "cross product"),
            (v.scaled(2.0), [2 * x for x in a], "scaled vector"), (v.copy(), a, "copy"), (m.multiply_vector(v), list(ref.matvec(vals, a)), "product with a vector"),
            (m.transpose(), ref.transpose(vals), "transpose"), (m.diagonal(), [vals[k][k] for k in range(3)], "diagonal"), (m.scaled(-2.0), ref.mscale(vals, -2.0), "scaled matrix"),
            (m.plus(m), ref.madd(vals, vals), "sum with itself"), (m.column_1(), [r[0] for r in vals], "first column"), (m.column_3(), [r[2] for r in vals], "third column"),
            (mm.transpose(), ref.transpose(m6), "transpose of the 6x6"), (mm.multiply_vector(v6), list(ref.matvec(m6, s6)), "6x6 times vector"), (v6.plus(v6), [2 * x for x in s6], "sum of 6-vectors"),
            (mm.multiply_matrix(mm), ref.matmul(m6, m6), "square of the 6x6"), (mm.column_4(), [r[3] for r in m6], "fourth column of the 6x6"), (v6.copy(), s6, "copy of the 6-vector"),
        ):  # fmt: skip
            if nm in ("cross product", "product with a vector", "difference", "sum"):
                close_vec(alpha.t3(got), want, 1e-12, f"{nm} {what}")
            else:
                same(got, want, f"{nm} {what}")
            outs.append(got)
        close(v.dot(w), ref.dot(a, b), 1e-12, f"dot product {what}")
        close(v6.dot(v6), sum(x * x for x in s6), 1e-12, f"dot product of 6-vectors {what}")
        close(v.magnitude(), ref.norm(a), 1e-13, f"magnitude {what}")
        n = v.normalized()
        close_vec(alpha.t3(n), ref.unit(a), 1e-14, f"unit vector {what}")
        close(v.angle(w), ref.angle(a, b), 1e-12, f"angle {what}")
        rot = v.rotation_about_axis(w, 0.7)
        close_vec(alpha.t3(rot), ref.rodrigues(tuple(a), ref.unit(b), 0.7), 1e-12 * ref.norm(a), f"rotated vector {what}")
        rm = Vector3D.rotation_matrix(w, 0.7)
        close_mat(alpha.m3(rm), ref.transpose([list(ref.rodrigues(x, ref.unit(b), 0.7)) for x in ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0))]), 1e-13, f"rotation matrix {what}")
        det = ref.dot(vals[0], ref.cross(vals[1], vals[2]))
        close(m.determinant(), det, 1e-11, f"determinant {what}")
        inv = m.inverse()
        close_mat(ref.matmul(vals, alpha.m3(inv)), ref.eye(3), 1e-11, f"matrix times its inverse {what}")
        cof, adj = m.cofactor(), m.adjugate()
        close_mat(alpha.m3(adj), ref.mscale(alpha.m3(inv), det), 1e-9, f"adjugate {what}")
        close_mat(alpha.m3(cof), ref.transpose(alpha.m3(adj)), 1e-9, f"cofactors {what}")
        for o in (*outs, n, rot, rm, inv, cof, adj):
            scramble(o)
        same(m, vals, f"matrix, changed through a result {what}")
        same(mm, m6, f"6x6 matrix, changed through a result {what}")
        same(v, a, f"vector, changed through a result {what}")
        same(w, b, f"vector, changed through a result {what}")
        same(v6, s6, f"6-vector, changed through a result {what}")
        ctx.step(28)
    ctx.state(*case)
    ctx.outcome(a, vals)


def scramble(o):
    if isinstance(o, (Vector3D, Vector6D)):
        o.x, o.y, o.z = 11.0, 12.0, 13.0
        if isinstance(o, Vector6D):
            o.vx, o.vy, o.vz = 14.0, 15.0, 16.0
    else:
        for k in range(1, 7):
            if hasattr(o, f"row{k}"):
                scramble(getattr(o, f"row{k}"))


EDITS = ["v", "w", "cell", "row", "six", "tiny"]

ANGLES = [0.0, 1e-12, 1e-9, 1e-6, 1e-3, 0.1, pi / 6, pi / 4, 1.0, pi / 2, 2.0, 3 * pi / 4, pi, 3.5, 5.0, 2 * pi, 7.0, 4 * pi, 107.0, 1234.5, 98765.4]


def run_rotation(case, ctx):
    axis, th = tuple(case[0]), case[1]
    what = f"rotation by {th} about {axis}"
    va = Vector3D(*axis)
    m = alpha.m3(Vector3D.rotation_matrix(va, th))
    u = ref.unit(axis)
    cols = [ref.rodrigues(e, u, th) for e in ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0))]
    close_mat(m, ref.transpose([list(c) for c in cols]), 1e-14 + 4e-16 * abs(th), what)
    close_mat(ref.matmul(m, ref.transpose(m)), ref.eye(3), 1e-14, "orthogonality of the " + what)
    close(ref.dot(m[0], ref.cross(m[1], m[2])), 1.0, 1e-14, "determinant of the " + what)
    close_vec(ref.matvec(m, u), u, 1e-14, "axis after the " + what)
    for v in DIRS + [(1e-6, 2.0, -3e5), (42164.0, -7.0, 0.5)]:
        n = ref.norm(v)
        got = alpha.t3(Vector3D(*v).rotation_about_axis(va, th))
        close_vec(got, ref.rodrigues(v, u, th), (2e-14 + 4e-16 * abs(th)) * n, f"{v} after the {what}")
        close(ref.norm(got), n, 2e-14 * n, f"length of {v} after the {what}")
        ctx.step()
    for th2 in (0.25, -1.5, 3.0):
        both = ref.matmul(alpha.m3(Vector3D.rotation_matrix(va, th2)), m)
        close_mat(both, alpha.m3(Vector3D.rotation_matrix(va, th + th2)), 2e-14 + 1e-15 * abs(th), f"{what} followed by {th2}")
    same(va, list(axis), "axis")
    ctx.step(4)
    ctx.state(axis, th)
    ctx.outcome(m[0])


def rotation_cases(tier):
    th = ANGLES + [-t for t in ANGLES if t]
    if tier == "thorough":
        th += [0.05 * k for k in range(-130, 131)]
    axes = [list(d) for d in DIRS] + [[1e-9, 0.0, 0.0], [3e4, -2e4, 1e4], [1e-5, 1e-5, 1.0], [0.6, 0.0, -0.8], [-1e-3, 2e-3, 3e-3]]
    return grid(axes, th)


def run_angle(case, ctx):
    """angles from tiny to pi, lengths from 1e-9 to 1e9"""
    axis, th, l1, l2 = tuple(case[0]), *case[1:]
    u = ref.unit(axis)
    p = ref.unit(ref.cross(u, (0.3, -0.9, 0.2)))
    w = ref.add(ref.mul(u, cos(th)), ref.mul(p, sin(th)))
    a, b = Vector3D(*ref.mul(u, l1)), Vector3D(*ref.mul(w, l2))
    s = min(th, pi - th)
    tol = 2e-14 / s if s > 1e-7 else 1e-7
    got = a.angle(b)
    in_range(got, 0, pi, f"angle for {case}", slack=0)
    close(got, th, min(tol, 1e-7), f"angle for {case}")
    ctx.step()
    ctx.state(*case)
    ctx.outcome(round(got, 6))


def angle_cases(tier):
    ths = [0.0, 1e-9, 1e-7, 4e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1.0, pi / 2, 2.0, 3.0, pi - 0.01, pi - 1e-4, pi - 1e-6, pi - 4e-7, pi]
    ls = [1e-9, 1e-3, 1.0, 42164.0, 1.5e8, 1e12]
    return grid([list(d) for d in DIRS] + [[0.1, 0.2, 0.7], [-0.37, 1e-4, 0.9]], ths, ls, ls)


assert sqrt
GROUPS = [
    Group("product", lambda t: [[p, k, s] for p in range(len(PRODUCTS)) for k in range(PRODUCTS[p][0][0] * PRODUCTS[p][0][1]) for s in (1.0, -(2.0**-30))], run_product, doc="all pairs of basis elements of 6 matrix products, at 2 scales"),
    Group("dense", lambda t: grid(list(range(24 if t == "quick" else 200)), [1.0, 2.0**-40, 2.0**40], [1.0, -1.0, 2.0**-40]), run_dense, doc="24 (200) dense integer operands x 9 scales through every operation"),
    Group("single", lambda t: [[list(s), k] for s in MAKE for k in range(s[0] * s[1])], run_single, doc="all basis elements of 4 shapes through every unary operation, sums of all pairs"),
    Group("vectors", lambda t: grid([list(v) for v in itertools.product(INTS, repeat=3)], SCALES), run_vec, doc="all pairs of 64 integer vectors x 3 scales"),
    Group("vectors6", lambda t: grid(list(range(22)), [1.0, 2.0**-40, -(2.0**30)], [1.0, 2.0**-20]), run_vec6, doc="6-dimensional vectors against basis and dense vectors"),
    Group("inverse", inverse_cases, run_inverse, doc="all 3x3 matrices with entries -1, 0, 1 (thorough -2..3) in two rows and -1..2 in the third, x 6 (8) row scalings"),
    Group("rotation", rotation_cases, run_rotation, doc="31 axes x 41 (300) angles from -4 pi to 4 pi, and up to 98765 rad, x 28 vectors, composition"),
    Group("angle", angle_cases, run_angle, doc="28 directions x 20 angles from 0 to pi x 36 pairs of lengths"),
    Group("edits", lambda t: [list(p) for n in range(1, 4 if t == "quick" else 6) for p in itertools.product(EDITS, repeat=n)], run_edits, doc="all sequences up to length 3 (5) of 6 in-place changes of vectors and matrices; every operation repeated after each, results overwritten"),
]
ASSUMPTIONS = ["integer operands times powers of two are exact in double precision, whatever the order of summation"]
