"""Single static faults and the places they are put in."""

PRE = '''import world
import print
import schedule
import math
vi := 1
vb := True
const ki = 3, ks = "s", kl = {1, 2}, km = {1: 2}
struct ST:
    x: int
    y: bool
sv := ST(x=1, y=True)
entity EN:
    f: int
    new():
        new(type="pig", pos=Pos(0, 0, 0))
        self.f = 3
    def m(a: int) -> int:
        result self.f + a
    virtual def vm(a: int) -> int:
        result a
    static const def sc(v: int) -> int:
        result v
    inline def im(const a):
        /say ${a}
entity E2:
    new():
        new(type="cow", pos=Pos(0, 0, 0))
ev := EN()
gv := Engroup[EN]()
def fn(a: int, b: bool = True) -> int:
    result a
inline def il(const a, &b: int, c: int) -> int:
    b = c
    result c + 1
const def cd(a: int) -> int:
    result a + 1
inline def nores(a: int) -> int:
    b := a
def tick_():
    /say t
const tk = schedule.Task(tick_)
'''

# expressions that are wrong wherever they stand
EXPRS = """nope
nope.x
nope(1)
vi.nope
sv.nope
sv.x.nope
ev.nope
ev.m.nope
ST.nope
EN.nope
math.nope
ks.nope
kl.nope
km.nope
None.nope
Pos.nope
world.nope.x
vi + vb
vb + vi
vb * 2
2 - vb
vi / vb
vi % ks
ks - ks
ks * ks
-vb
+vb
-ks
-sv
not vi
not 3
not ks
vi and vb
vb and vi
vb or 3
3 or vb
ks or vb
ks == 1
vi < vb
vi == vb
vb < vb
1 < ks
vi < 3 < vb
sv == sv
ev == ev
kl == kl
fn == fn
kl + 1
{1} + 1
km + km
kl * vi
kl * "a"
{vi}
{1, vi}
{1: vi}
{vi: 1}
{{1: 2}: 1}
{1.5: 2}.nope
kl[5]
kl[-9]
km[9]
kl["a"]
kl[1, 2]
vi[0]
vb[0]
fn[1]
ev[1]
EN[1]
vi()
vi(1)
ks(1)
kl()
km(1)
None()
3()
sv()
ev()
math()
fn()
fn(1, True, 3)
fn("a")
fn(True)
fn(vb)
fn(sv)
fn(ev)
fn(kl)
fn(1, 2)
fn(1, c=2)
fn(1, a=2)
fn(a=True)
fn(b=True)
fn(fn)
fn(nope)
fn(1, b=nope)
fn(fn("a"))
fn(fn(1), fn(2))
il()
il(1, 2, 3)
il(1, ki, 3)
il(vi, vi, 3)
il(1, vb, 3)
il(1, vi)
il(1, vi, True)
il(1, vi, "s")
il(1, vi, 3, 4)
il(1, vi, d=3)
il(1, vi, c=3, a=2)
nores(1)
nores(True)
cd(vi)
cd("a")
cd()
cd(1, 2)
cd(b=1)
cd(a=True)
cd(vb)
ST(1)
ST(z=1)
ST(x=True)
ST(y=3)
EN(1)
EN(z=1)
ev.m()
ev.m(True)
ev.m(1, 2)
ev.m(b=1)
ev.vm()
ev.vm(True)
ev.vm(1, 2)
ev.im()
ev.im(vi)
ev.im(b=1)
EN.sc(vi)
EN.sc()
EN.sc("a")
1 / 0
1 % 0
ki / 0
ki % (ki - 3)
2147483648
2147483647 + 1
ki * 2147483647
-2147483648
"${vi}"
"${gv}"
"${nope}"
"a" "${sv}"
"\\#(nope)"
"\\x9"
"\\u12"
Pos(1)
Pos()
Pos(1, 2)
Pos("a", 0, 0)
Pos(ks)
Pos(vi, 0, 0)
Pos(1, 2, 3, 4)
Pos(0, 0, 0).nope
Pos(0, 0, 0).offset(q=1)
Pos(0, 0, 0).offset(x="a")
Pos(0, 0, 0).dim(3)
Pos(0, 0, 0).align("q")
Rot(1)
Rot("a", 1)
upcast(ev, ST)
upcast(1, EN)
upcast(ev, E2)
upcast(ev)
upcast(ev, 3)
Engroup[int]()
Engroup()
Engroup[EN, EN]()
Engroup[EN](1)
Engroup[3]()
gv.nope
gv.add(1)
gv.select(1)
gv.has(3)
swap(vi, vb)
swap(vi, 1)
swap(ki, vi)
swap(vi)
swap(nope, vi)
scb(1, 2)
scb("a")
scb()
world.is_block(1, 2)
world.is_block()
world.is_block(Pos(0, 0, 0))
world.setblock(1, 2)
world.setblock(Pos(0, 0, 0), vi)
world.kill()
world.tp(ev, 3)
world.fill(Pos(0, 0, 0), Pos(1, 1, 1))
world.Block("a", 3)
print.format("%0")
print.format("%1", vi)
print.format("%{nope}")
print.format(vi)
print.tell()
print.tell(kl)
print.tell(vi, "a")
print.title("a", mode="zz")
math.pow("a", 1)
math.pow(1)
math.randint(True, 2)
math.min()
math.sqrt("x")
schedule.Task()
schedule.Task(3)
schedule.Task(tick_, 4)
schedule.register_loop(3)
tk.nope
tk.after("a")
int.nope
list.range("a")
list.range()
list.range(1, 2, 0)
kl.nope()
kl.map(3)
kl.map(nope)
list(3)
map(1, 2)
Enfilter().nope
Enfilter().has_tag(3)
Enfilter().distance_from(3)
Enfilter().all_of(nope)
Offset(x=1, x_abs=2)
Offset(y=1, y_abs=2)
Offset(0, 0, 1, z_abs=2)
Enfilter().random("pig", limit=0)
Enfilter().nearest_from(Pos(0, 0, 0), limit=0)
Enfilter().farthest_from(Pos(0, 0, 0), 0)""".split("\n")

# expressions that can stand where the grammar wants an expression but that
# do not parse
PEXPRS = """1 +
(1
1)
fn(1,,2)
fn(a=1, 2)
fn(a=1, a=2)
fn(1=2)
{1: 2, 3}
{1, 2: 3}
{1: 2
vi.
vi.1
vi vi
1 2
"abc
"${1
"${}"
"${1"
0x
0b2
0o9
not
and 1
1 or
1 ==
== 1
1 = = 2
vi[
vi[1
vi[1}
vi..x
@
$
?
!
vi ! 3
vi &
if
def
pass
1 if True
lambda
[1, 2]
()
{,}
(,)
new""".split("\n")

# whole statements; the line at fault begins with @@ (the first one if none)
STMTS = [s.strip("\n") for s in '''vi = True
--
vi = nope
--
vi = gv
--
vi = "a"
--
vi = fn
--
vb = 1
--
sv = 1
--
sv = ev
--
ev = gv
--
ev = sv
--
gv = ev
--
nope = 1
--
nope += 1
--
nope.x = 1
--
vi += True
--
vi += "a"
--
vb += 1
--
sv += 1
--
ki = 4
--
ki += 1
--
ks = "b"
--
1 = vi
--
1 += 1
--
fn = 1
--
fn(1) = 2
--
vi + 1 = 2
--
sv.nope = 1
--
sv.x = True
--
sv.y += 1
--
ev.f = True
--
ev.nope = 1
--
ev.m = 3
--
EN.f = 3
--
math.pow = 3
--
zz := 1
@@zz := 2
--
zz: int
@@zz: bool
--
const zz = 1
@@const zz = 2
--
zz := 1
@@const zz = 2
--
zz: nope
--
zz: 3
--
zz: vi
--
zz: int = True
--
zz: bool = 3
--
zz: int = nope
--
zz: EN = E2()
--
zz: ST = ev
--
zz: list
--
zz: Engroup = gv
--
zz: math
--
zz := kl
--
zz := km
--
zz := fn
--
zz := math
--
zz := EN
--
zz := int
--
const zz = vi
--
const zz = fn(1)
--
const zz: bool = 3
--
const zz: nope = 3
--
const zz = 1, yy = nope
--
&zz = 3
--
&zz = ki
--
&zz: bool = vi
--
&zz = nope
--
&zz: nope = vi
--
if vi:
    pass
--
if 3:
    pass
--
if ks:
    pass
--
if nope:
    pass
--
if fn(1):
    pass
--
if vb:
    pass
@@elif 3:
    pass
--
if vb:
    pass
@@elif nope:
    pass
else:
    pass
--
if vb:
    pass
elif not vb:
    @@nope()
--
if vb:
    pass
else:
    @@vi = nope
--
while 3:
    vi = 1
--
while vi:
    vi = 1
--
while nope:
    vi = 1
--
while vi < 9:
    vi += 1
    @@vi += nope
--
while True:
    vi = 1
--
for i in 3:
    pass
--
for i in vi:
    pass
--
for i in nope:
    pass
--
for i in ks.nope:
    pass
--
for i in ev:
    pass
--
for i in {1, 2, 3}:
    @@i = 3
--
for i in kl:
    @@nope(i)
--
for e in gv:
    @@e.nope()
--
for e in gv:
    @@e.f = True
--
for i in {1, "a"}:
    zz := 1
    @@zz = i
--
/say ${vi}
--
/say ${nope}
--
/say a ${ki} ${vi}
--
/say ${
--
/say ${1
--
/say ${}
--
/say ${1 2}
--
/* say
hello
@@${nope} there
*/
--
/* say
@@${vi}
*/
--
/say \\#(nope)
--
/say \\x9
--
vi :=
--
:= 3
--
vi = = 3
--
vi ++
--
vi += += 1
--
if
--
if True
--
if vb: pass
--
else:
    pass
--
elif vb:
    pass
--
while
--
while vb
--
for
--
for in kl:
    pass
--
for i kl:
    pass
--
for i in:
    pass
--
for i, j in kl:
    pass
--
pass pass
--
pass 1
--
import
--
import 1
--
import a.
--
import math as
--
from math
--
from math import
--
from math import *,
--
from import x
--
const
--
const zz
--
const zz = 1,
--
const (zz = 1
--
&
--
&zz
--
result
--
result 1 2
--
interface
--
interface :
    pass
--
def
--
def zf
--
def zf:
    pass
--
def zf()
--
def zf() ->:
    pass
--
def 3():
    pass
--
struct
--
struct ZS
--
entity
--
entity ZE:
@@vi = 1
--
struct ZS:
    @@vi = 1
--
entity ZE:
    @@/say hi
--
entity ZE:
    x: int
    @@if vb:
        pass
--
vi
    @@vi = 1
--
"abc
--
zz := "abc
--
nope
--
nope()
--
vi.new()
--
@@fn(
    1, True, 3)
--
zz := (1 +
    @@nope)
--
zz := fn(
    1,
    @@b=nope
)
--
ev.vm("a")
--
swap(vi,
    @@nope)
--
const (
    zz = 1,
    @@zy = vi
)
--
const (
    zz: int = 1,
    @@zy: int = True
)
--
zz := {
    1,
    @@vi,
    2
}
--
zz := {
    1: 2,
    @@vi: 2,
    3: 4
}
--
zz := {
    1: 2,
    2:
        @@vi,
    3: 4
}
--
zz := (
    vb and
    @@vi and
    vb
)
--
&zz = (
    @@vi + 1
)
--
&zz: bool = (
    vi
)
--
zz: int = (
    vb
)
--
vi += (
    vb
)
--
@@vs.a \\
    : int = 3
--
@@vs.a := 3
--
@@fn(1, True,
    a=
    2)
--
ev.m(1, @@b=
    2)
--
vi, @@vb = (1,
    2)'''.split("\n--\n")]

# declarations: only where declarations are usual
DECLS = [s.strip("\n") for s in '''import nope
--
def zf(
    a: int,
    @@a: int
    ,
    b: int
):
    pass
--
def zf(a: int = 1,
    @@b: int
    ,
    c: int = 1
):
    pass
--
def zf(
    a: int,
    @@b
    ,
    c: int
):
    pass
--
def zf(
    a: int = 1, b: int =
    @@vi, c: int
    = 3
):
    pass
--
def zf(
    @@const
    a: int,
    b: int
):
    pass
--
def zf(
    @@&a: int,
    b: int
):
    pass
--
inline def zf(
    a: int,
    @@a: int
    ,
    b: int
):
    pass
--
inline def zf(
    a: int = 1, b: int =
    @@vi, c: int
    = 3
):
    pass
--
inline def zf(
    a: int = 1, &b =
    @@3, c: int
    = 3
):
    pass
--
const def zf(
    a: int,
    @@a: int
    ,
    b: int
):
    pass
--
const def zf(
    a: int = 1, b: int =
    @@vi, c: int
    = 3
):
    pass
--
entity ZE:
    new():
        new(type="pig", pos=Pos(0, 0, 0))
    def m():
        pass
    new():
        new(type="pig", pos=Pos(0, 0, 0))
--
entity ZE:
    @@const \\
    new():
        new(type="pig", pos=Pos(0, 0, 0))
--
entity ZE:
    new():
        new(type="pig", pos=Pos(0, 0, 0))
    @@const \\
    def m():
        pass
--
struct ZS extends ST, \\
    @@int:
    pass
--
@@entity ZE extends EN, \\
    ST:
    pass
--
@@from math import (
    randint,
    nope,
    pow
)
--
import .nope
--
import math.nope
--
import nope.x as y
--
from math import nope
--
from nope import x
--
from nope import *
--
from math import (randint, nope)
--
struct ZS extends int:
    pass
--
struct ZS extends nope:
    pass
--
struct ZS extends EN:
    pass
--
struct ZS:
    x: int
    @@y: nope
--
struct ZS:
    @@x: list
--
struct ZS:
    @@x: 3
--
struct ZS:
    x: int
    y: bool
    @@x: bool
--
struct ZS extends ST:
    @@x: nope
--
@@struct ZS extends ST:
    x: bool
--
entity ZE extends ST:
    pass
--
entity ZE extends nope:
    pass
--
entity ZE extends EN, nope:
    pass
--
@@entity ZE extends Entity, EN:
    pass
--
entity ZE:
    @@x: nope
--
entity ZE:
    @@x: list
--
entity ZE:
    x: int
    @@x: int
--
entity ZE:
    @@def m(a: nope):
        pass
--
entity ZE:
    @@def m() -> nope:
        pass
--
entity ZE:
    def m():
        @@nope()
--
entity ZE:
    virtual def m():
        @@self.nope()
--
entity ZE:
    new():
        new(type="pig", pos=Pos(0, 0, 0))
        @@self.nope = 3
--
entity ZE:
    new():
        @@nope()
--
entity ZE:
    new():
        @@new(3)
--
entity ZE:
    new():
        @@new(type="pig", pos=Pos(0, 0, 0), nope=3)
--
entity ZE:
    new():
        @@new(type="pig")
--
entity ZE extends EN:
    new():
        @@EN.new(3)
--
entity ZE extends EN:
    new():
        @@E2.new(3)
--
entity ZE:
    static def m():
        @@self.x = 1
--
entity ZE:
    def m():
        pass
    @@const def n():
        pass
--
entity ZE:
    @@const new():
        pass
--
entity ZE extends EN:
    def z():
        @@self.f = True
--
entity ZE extends EN:
    def z(a: int) -> int:
        @@result self.f < a
--
def zf(a):
    pass
--
def zf(a: int, a: int):
    pass
--
def zf(a: int = 1, b: int):
    pass
--
def zf(a: int = True):
    pass
--
def zf(a: nope):
    pass
--
def zf(a: int) -> nope:
    pass
--
def zf(a: int = nope):
    pass
--
def zf(const a: int):
    pass
--
def zf(&a: int):
    pass
--
def zf(a: list):
    pass
--
def zf() -> list:
    pass
--
def zf(a: int = vi):
    pass
--
def zf() -> 3:
    pass
--
inline def zf(a: nope):
    pass
--
inline def zf(const a: int = True):
    pass
--
inline def zf(a: int = vi):
    pass
--
inline def zf() -> nope:
    pass
--
const def zf(a: nope) -> int:
    result 1
--
const def zf(&a):
    pass
--
const def zf(a = vi) -> int:
    result 1
--
def zf() -> int:
    @@result "a"
--
def zf():
    @@result 3
--
def zf() -> int:
    if vb:
        @@result True
    result 1
--
def zf() -> int:
    /say 1
    @@zz = 1
    result 1
--
inline def zf() -> int:
    @@result "a"
zf()
--
inline def zf(const a):
    @@a.nope()
zf(1)
--
inline def zf(a: int):
    @@a = True
zf(vi)
--
inline def zf() -> const int:
    @@result vi
zf()
--
inline def zf() -> &int:
    @@result 3
zf()
--
inline def zf() -> &int:
    result vi
    @@result vi
zf()
--
inline def zf():
    /say 1
    for i in kl:
        @@nope(i)
zf()
--
inline def zf(const a):
    if vb:
        @@vi = a
zf("a")
--
inline def zg(const a):
    @@vi = a
inline def zf(const a):
    zg(a)
zf("a")
--
inline def zg(a: int):
    vi = a
inline def zf(const a):
    /say ${a}
    @@zg(a)
zf("a")
--
const def zg(a):
    @@result a.nope
const def zf(a):
    result zg(a)
zz := zf(1)
--
const def zf(a: int) -> int:
    @@b := a + True
    result b
zz := zf(1)
--
const def zf(a: int) -> int:
    b := {1, 2}
    @@b[7] = a
    result b[0]
zz := zf(1)
--
const def zf(a: int) -> int:
    while a > 0:
        a -= 1
        @@nope()
    result a
zz := zf(1)
--
const def zf(a: int) -> int:
    @@/say hi
    result a
zz := zf(1)
--
const def zf(a: int) -> int:
    @@result vi
zz := zf(1)
--
const def zf(a: int) -> int:
    result a
@@zz := zf(vi)
--
const def zf(a: int) -> int:
    @@a += True
    result a
zz := zf(1)
--
const def zf(a: int) -> int:
    for i in {1}:
        if i == 1:
            @@b: bool = i
    result a
zz := zf(1)'''.split("\n--\n")]

# only at the top level of a file
TOP = [s.strip("\n") for s in '''interface /a:
    /say a
--
interface a//b:
    /say a
--
interface a/:
    /say a
--
interface _acacia/x:
    /say a
--
interface main:
    /say a
--
interface "":
    /say a
--
interface "a b":
    /say a
--
interface "${vi}":
    /say a
--
interface "a${nope}":
    /say a
--
interface a.b/../c:
    /say a
--
interface zi:
    /say a
@@interface zi:
    /say b
--
interface zi:
    /say a
@@interface Zi:
    /say b
--
interface zi:
    @@nope()
--
interface zi:
    @@result 1
--
interface zi:
    @@self.x = 1
--
result 1
--
self.x = 1
--
zz := self
--
new()
--
new(type="pig", pos=Pos(0, 0, 0))
--
EN.new()
--
if vb:
    @@result 1
--
def zf():
    @@new(type="pig", pos=Pos(0, 0, 0))
--
def zf():
    @@self.x = 1
--
def zf():
    interface zi2:
        @@nope()
--
inline def zf(const a):
    interface "zj${a}":
        @@vi = a
zf("x")
--
entity ZE:
    virtual def m() -> int:
        result 1
    @@virtual def m() -> int:
        result 1
--
entity ZE:
    new():
        new(type="pig", pos=Pos(0, 0, 0))
    virtual inline def m():
        @@nope()
ze := ZE()
ze.m()
--
entity ZE:
    new():
        new(type="pig", pos=Pos(0, 0, 0))
    virtual inline def m():
        pass
entity ZF extends ZE:
    new():
        ZE.new()
    override inline def m():
        @@nope()
ze: ZE = ZF()
ze.m()
--
entity ZE:
    new():
        new(type="pig", pos=Pos(0, 0, 0))
    virtual inline def m(a: int):
        @@a = True
ze := ZE()
ze.m(3)
--
struct ZS:
    x: int
zs := ZS(x=1)
@@zs.x = True
--
struct ZA:
    x: int
struct ZB:
    x: bool
@@struct ZC extends ZA, ZB:
    pass
--
entity ZE:
    static const def n(v: int) -> map:
        result {v: v}
@@zz := ZE.n(1)
--
const def zf(a: int) -> nope:
    result a
--
const def zf(a: int):
    result Pos
@@zz := zf(1)
--
const def zf(a: int):
    result fn
@@zz := zf(1)
--
entity ZA:
    x: int
entity ZB:
    x: int
@@entity ZC extends ZA, ZB:
    pass
--
entity ZA:
    x: int
@@entity ZC extends ZA:
    x: int
--
entity ZA:
    def m():
        pass
entity ZB:
    virtual def m():
        pass
@@entity ZC extends ZA, ZB:
    pass
--
entity ZA:
    virtual def m():
        pass
entity ZB:
    virtual def m():
        pass
@@entity ZC extends ZA, ZB:
    pass
--
entity ZA:
    x: int
entity ZB:
    def x():
        pass
@@entity ZC extends ZA, ZB:
    pass
--
entity ZA:
    x: int
    @@def x():
        pass
--
@@zz := Entity()
--
entity ZA:
    pass
@@zz := ZA()
--
entity ZA:
    @@new() -> int:
        new(type="pig", pos=Pos(0, 0, 0))
        result 1
--
entity ZA:
    inline new() -> int:
        new(type="pig", pos=Pos(0, 0, 0))
        result 1
@@zz := ZA()
--
entity ZA:
    virtual def m() -> int:
        result 1
@@entity ZB extends ZA:
    override def m() -> bool:
        result True
--
@@entity ZA:
    virtual inline def m() -> list:
        result {1}
--
entity ZA:
    virtual def m() -> int:
        result 1
@@entity ZB extends ZA:
    def m() -> int:
        result 2
--
entity ZA:
    virtual def m() -> int:
        result 1
@@entity ZB extends ZA:
    static def m() -> int:
        result 2
--
@@entity ZB extends EN:
    override def zz() -> int:
        result 2
--
@@entity ZB extends EN:
    override def m(a: int) -> int:
        result 2
--
@@entity ZB extends EN:
    def sc(v: int) -> int:
        result 2
--
@@entity ZB extends EN:
    virtual def sc(v: int) -> int:
        result 2
--
@@entity ZB extends EN:
    static def m(v: int) -> int:
        result 2
--
@@entity ZB extends EN:
    virtual def m(v: int) -> int:
        result 2
--
@@entity ZB extends EN:
    f: int
--
@@entity ZB extends EN:
    def f():
        pass
--
struct ZS:
    e: EN
    g: Engroup[EN]
entity ZB:
    @@x: ZS
--
const def zf(a: int):
    @@result ev.f
zz := zf(1)
--
const def zf(a: int):
    @@result km.nope
zz := zf(1)
--
km.update({1: 2})
--
kl.append(3)
--
kl.pop()
--
km.set(1, 2)
--
interface zi(a):
    /say a
--
interface zi/a(b):
    /say a
--
for i in kl:
    @@kl.append(i)
--
const def zf(a):
    i := Pos
    result i
@@zz := zf(1)
--
entity ZA:
    new():
        new(type="pig", pos=Pos(0, 0, 0))
    @@const def zc(a: int) -> int:
        result a
--
const def zf(a: int) -> int:
    @@b := Pos(0, 0, 0).nope
    result a
zz := zf(1)
--
kl.pop()
--
zz := kl.pop()
--
if vb:
    @@kl.pop()
--
kl.append(1)
--
zz := kl.append(1)
--
if vb:
    @@kl.append(1)
--
kl.insert(0, 1)
--
zz := kl.insert(0, 1)
--
if vb:
    @@kl.insert(0, 1)
--
kl.extend({1})
--
zz := kl.extend({1})
--
if vb:
    @@kl.extend({1})
--
kl.reverse()
--
zz := kl.reverse()
--
if vb:
    @@kl.reverse()
--
km.pop(1)
--
zz := km.pop(1)
--
if vb:
    @@km.pop(1)
--
km.update({1: 3})
--
zz := km.update({1: 3})
--
if vb:
    @@km.update({1: 3})
--
km.set_default(5, 1)
--
zz := km.set_default(5, 1)
--
if vb:
    @@km.set_default(5, 1)
--
km.clear()
--
zz := km.clear()
--
if vb:
    @@km.clear()
--
{1, 2}.pop()
--
zz := {1, 2}.pop()
--
if vb:
    @@{1, 2}.pop()
--
{1: 2}.pop(1)
--
zz := {1: 2}.pop(1)
--
if vb:
    @@{1: 2}.pop(1)'''.split("\n--\n")]

# (name, text with a line "HERE", kind) kind: rt runtime code, ct compile time
CONTEXTS = [
    ("top", "HERE", "top"),
    ("if", "if vb:\n    HERE", "decl"),
    ("else", "if vb:\n    /say a\nelse:\n    /say b\n    HERE\n    /say c",
     "decl"),
    ("elif", "if vb:\n    /say a\nelif vi == 2:\n    HERE\nelse:\n    pass",
     "rt"),
    ("while", "while vi < 5:\n    vi += 1\n    HERE", "rt"),
    ("for", "for i_ in {1, 2}:\n    HERE\n    /say ${i_}", "rt"),
    ("forgroup", "for e_ in gv:\n    HERE\n    e_.f += 1", "rt"),
    ("def", "def host():\n    /say a\n    HERE\n    /say b", "decl"),
    ("defr", "def host(q_: int) -> bool:\n    if q_ > 1:\n        HERE\n"
     "    result True\nhost(1)", "rt"),
    ("nested", "def host():\n    def inner():\n        /say a\n        HERE\n"
     "    inner()\nhost()", "rt"),
    ("inline", "inline def host():\n    /say a\n    HERE\nhost()", "rt"),
    ("inline2", "inline def host2(const q_):\n    if vb:\n        HERE\n"
     "inline def host(const q_):\n    for r_ in q_:\n        host2(r_)\n"
     "def go():\n    host({1, 2})", "rt"),
    ("interface", "interface host:\n    /say a\n    HERE", "rt"),
    ("method", "entity HO:\n    x: int\n    def m():\n        self.x = 1\n"
     "        HERE", "rt"),
    ("virtual", "entity HO:\n    x: int\n    new():\n        new(type=\"pig\""
     ", pos=Pos(0, 0, 0))\n    virtual def m():\n        self.x = 1\n"
     "        HERE\nho := HO()\nho.m()", "rt"),
    ("vinline", "entity HO:\n    x: int\n    new():\n        new(type=\"pig\""
     ", pos=Pos(0, 0, 0))\n    virtual inline def m():\n        self.x = 1\n"
     "        HERE\nentity HP extends HO:\n    new():\n        HO.new()\n"
     "    override inline def m():\n        /say x\nho: HO = HP()\nho.m()",
     "rt"),
    ("static", "entity HO:\n    x: int\n    static def m():\n        HERE",
     "rt"),
    ("minline", "entity HO:\n    x: int\n    new():\n        new(type=\"pig\""
     ", pos=Pos(0, 0, 0))\n    inline def m(const q_):\n        /say ${q_}\n"
     "        HERE\nHO().m(1)", "rt"),
    ("new", "entity HO:\n    x: int\n    new():\n        new(type=\"pig\", "
     "pos=Pos(0, 0, 0))\n        HERE", "rt"),
    ("inew", "entity HO:\n    x: int\n    inline new(const q_):\n        "
     "new(type=q_, pos=Pos(0, 0, 0))\n        HERE\nHO(\"pig\")", "rt"),
    ("const", "const def host(q_: int):\n    r_ := q_\n    HERE\nhost(1)",
     "ct"),
    ("constif", "const def host(q_: int) -> int:\n    for r_ in {1, 2}:\n"
     "        if q_ == r_:\n            HERE\n    result 1\nq__ := host(1)",
     "ct"),
]

# how a wrong expression is used: %s on one line, alone on its line
USES = [
    ("assign", "zq := %s"),
    ("stmt", "%s"),
    ("call", "fn(%s)"),
    ("keyword", "fn(a=%s)"),
    ("paren", "zq := (((%s)))"),
    ("operand", "zq := 1 + (%s)"),
    ("operand2", "zq := (%s) + 1"),
    ("compare", "vb = vi < (%s)"),
    ("boolop", "vb = vb and (%s)"),
    ("list", "for zq in {1, %s}:\n    pass"),
    ("mapv", "for zq in {1: (%s)}:\n    pass"),
    ("cond", "if %s:\n    pass"),
    ("elifcond", "if vb:\n    pass\n@@elif %s:\n    pass"),
    ("whilecond", "while %s:\n    vi += 1"),
    ("command", "/say ${%s}"),
    ("string", "ev.im(\"a${%s}\")"),
    ("method", "ev.m(%s)"),
    ("virtual", "ev.vm(%s)"),
    ("struct", "zq := ST(x=%s)"),
    ("field", "ev.f = %s"),
    ("sfield", "sv.x = %s"),
    ("aug", "vi += %s"),
    ("const", "const zq = %s"),
    ("constdef", "zq := cd(%s)"),
    ("inline", "il(%s, vi, 3)"),
    ("inlinev", "il(1, vi, %s)"),
    ("index", "zq := kl[%s]"),
    ("tell", "print.tell(%s)"),
    ("format", "print.tell(print.format(\"%%0\", %s))"),
    ("swap", "swap(vi, %s)"),
    ("pos", "world.setblock(Pos(%s, 0, 0), \"a\")"),
    ("group", "gv.add(%s)"),
    ("multi", "zq := fn(\n    @@%s,\n    True)"),
    ("nestcall", "zq := fn(fn(fn(%s)))"),
]


def place(ctx, body):
    """the text of context ctx around the fault -> (text, line at fault).
    body: lines, the one at fault marked @@"""
    lines = body.split("\n")
    if not any("@@" in l for l in lines):
        lines[0] = "@@" + lines[0]
    out = []
    for l in ctx.split("\n"):
        if l.strip() == "HERE":
            ind = l[:len(l) - len(l.lstrip())]
            raw = False
            for b in lines:
                out.append(b if raw else ind + b)
                s = b.strip().lstrip("@")
                if s.startswith("/*"):
                    raw = True
                if "*/" in b:
                    raw = False
        else:
            out.append(l)
    at = [i for i, l in enumerate(out) if "@@" in l][0]
    return "\n".join(out).replace("@@", "") + "\n", at + 1

# not faults after all: (fault, use) or (fault, None, kind of context)
FINE = {("zz := " + x, None, "ct") for x in ("int", "fn", "math", "ev.m", "EN",
                                             "kl", "km", "ST")}
FINE.add(("pass", "stmt"))
FINE.add(('for i in {1, "a"}:\n    zz := 1\n    @@zz = i', None, "ct"))
# `self` of the method around is in scope
SELF = {"entity ZE:\n    static def m():\n        @@self.x = 1"}


def leaves_open(fault):
    """does it leave a bracket open?"""
    f = fault.replace("\\\"", "")
    f = "".join(f.split('"')[::2])
    return sum(f.count(c) for c in "([{") > sum(f.count(c) for c in ")]}")


# the uses there are in compile time functions
CT_USES = {"assign", "paren", "operand", "operand2", "list", "mapv", "index",
           "constdef", "stmt"}


# What the language and its libraries offer, by type of the result: %type% is
# an expression of that type.  (Used for random programs that are nearly
# right; nothing is expected of the result but an answer.)
LIB = {
    "ilit": ["0", "1", "2", "3", "-1", "7", "255", "32767", "2147483647",
             "int.MIN", "int.MAX", "ki", "kl[0]", "km[1]", "kl.size()",
             "cd(%ilit%)", "%ilit% + %ilit%", "%ilit% * 3", "%ilit% / 2",
             "%ilit% % 3", "-%ilit%", "(%ilit%)", "%list%[%ilit%]",
             "%map%.get(%lit%)", "int(%blit%)", "EN.sc(%ilit%)"],
    "int": ["vi", "ev.f", "sv.x", "fn(%int%)", "ev.m(%int%)", "ev.vm(%int%)",
            "il(%lit%, vi, %int%)", "%int% + %int%", "%int% - %int%",
            "%int% * %int%", "%int% / %int%", "%int% % %int%", "-%int%",
            "%ilit%", "gv.size()", "math.randint(%int%, %int%)",
            "math.min(%int%, %int%)", "math.max(%int%, %int%, %int%)",
            "math.pow(%int%, %int%)", "math.mod(%int%, %int%)",
            "math.floordiv(%int%, %int%)", "int(%bool%)",
            "scb(%slit%, %slit%)", "scb(%ent%, %slit%)"],
    "flit": ["0.0", "1.5", "-2.25", "1e3", "%ilit%", "100000.5"],
    "blit": ["True", "False", "not %blit%", "%ilit% == %ilit%",
             "%blit% and %blit%", "%ilit% < %ilit% <= %ilit%",
             "kl == %list%", "km.has(%lit%)", "%slit% == %slit%",
             "None == None", "%map%.has(%lit%)"],
    "bool": ["vb", "sv.y", "%int% == %int%", "%int% < %int%",
             "%int% >= %int% < %int%", "not %bool%", "%bool% and %bool%",
             "%bool% or %bool%", "%blit%", "%ent% == %ent%",
             "%ent% != %ent%", "%bool% == %bool%", "gv.has(%ent%)",
             "gv.is_empty()", "world.is_block(%pos%, %block%)",
             "world.is_entity(%ent%, %filter%)",
             "world.is_same_area(%pos%, %off%, %off%)"],
    "slit": ['"a"', '""', '"minecraft:pig"', '"stone"', "ks", '"a${%lit%}"',
             '"x" "y"', '"\\u{e9}"', '"%%0"', '"\\#(red)a"', '"eyes"',
             '"xz"', '"all"', '"replace"', '"survival"', '"1.."', '"!a"'],
    "lit": ["%ilit%", "%blit%", "%slit%", "None", "%flit%", "%list%",
            "%map%", "int", "fn", "ST", "math", "Pos(0, 0, 0)", "%off%"],
    "list": ["kl", "{}", "{%lit%}", "{%lit%, %lit%}", "list.range(%slen%)",
             "list.range(%ilit%, %slen%)", "list(%map%)", "list(%list%)",
             "%list%.copy()", "%list%.slice(%ilit%)",
             "%list%.slice(%ilit%, None)", "%list%.slice(0, %ilit%, -1)",
             "%list%.cycle(2)", "list.repeat(%lit%, 2)",
             "list.geometric(%ilit%, %ilit%, 3)", "%map%.keys()",
             "%map%.values()", "%list% + %list%", "%list% * 2"],
    "slen": ["0", "1", "3", "-2"],
    "map": ["km", "{%lit%: %lit%}", "{%lit%: %lit%, %lit%: %lit%}",
            "map(%list%, %list%)", "map.from_keys(%list%, %lit%)",
            "map.from_keys(%list%)", "%map%.copy()", "{:}"],
    "ent": ["ev", "EN()", "upcast(%ent%, Entity)", "upcast(ev, EN)", "E2()",
            "Entity.new(type=%slit%, pos=%pos%)"],
    "grp": ["gv", "Engroup[EN]()", "Engroup[Entity]()", "ExternEngroup()",
            "%grp%.copy()"],
    "sel": ["%ent%", "%grp%"],
    "psel": ["%filter%", "Enfilter().all_players()", "%filter%.all_players()"],
    "pos": ["Pos(0, 0, 0)", "Pos(%flit%, %flit%, %flit%)", "Pos(%ent%)",
            "Pos(%ent%, \"eyes\")", "%pos%.offset(%flit%, %flit%, %flit%)",
            "%pos%.offset(y=%flit%)", "%pos%.abs(x=%flit%)",
            "%pos%.apply(%off%)", "%pos%.local(%rot%, %flit%)",
            "%pos%.local(%rot%, front=%flit%)", "%pos%.align()",
            "%pos%.align(\"xz\")", "%pos%.dim(\"nether\")",
            "AbsPos(%flit%, %flit%, %flit%)",
            "AbsPos(0, 0, 0).offset(%flit%, %flit%, %flit%)"],
    "off": ["Offset()", "Offset(%flit%, %flit%, %flit%)",
            "Offset(x=%flit%)", "Offset(y_abs=%flit%)",
            "Offset.local(%flit%, %flit%, %flit%)",
            "Offset.local(front=%flit%)", "%off%.abs(%flit%, %flit%)",
            "%off%.offset(z=%flit%)"],
    "rot": ["Rot(0, 0)", "Rot(%flit%, %flit%)", "Rot(%ent%)",
            "Rot.face_entity(%ent%, \"eyes\")", "Rot.face_entity(%ent%)",
            "%rot%.abs(vertical=%flit%)", "%rot%.offset(%flit%, %flit%)",
            "%rot%.abs(%flit%)"],
    "filter": ["Enfilter()", "%filter%.is_type(%slit%)",
               "%filter%.is_not_type(%slit%)", "%filter%.has_tag(%slit%)",
               "%filter%.has_tag(%slit%, %slit%)",
               "%filter%.has_no_tag(%slit%)",
               "%filter%.distance_from(%pos%, min=%flit%, max=%flit%)",
               "%filter%.distance_from(%pos%, max=%flit%)",
               "%filter%.inside(%pos%, %flit%, %flit%, %flit%)",
               "%filter%.rot_vertical(%flit%, %flit%)",
               "%filter%.rot_horizontal(max=%flit%)",
               "%filter%.is_name(%slit%)", "%filter%.is_not_name(%slit%)",
               "%filter%.has_item(%slit%)",
               "%filter%.has_item(%slit%, \"1..3\", 0, %slit%, %ilit%)",
               "%filter%.scores(%slit%, \"..3\")",
               "%filter%.scores(%slit%, %ilit%)", "%filter%.level(%ilit%)",
               "%filter%.level(1, %ilit%)", "%filter%.is_game_mode(%slit%)",
               "%filter%.is_not_game_mode(%slit%)", "%filter%.random(%slit%)",
               "%filter%.random(limit=%ilit%)",
               "%filter%.nearest_from(%pos%, %ilit%)",
               "%filter%.farthest_from(%pos%)", "%filter%.all_players()",
               "%filter%.has_permission(%slit%)",
               "%filter%.has_no_permission(%slit%)"],
    "block": ["%slit%", "world.Block(%slit%)",
              "world.Block(%slit%, {%slit%: %lit%})",
              "world.Block(%slit%, %map%)"],
    "item": ["%slit%", "world.Item(%slit%)", "world.Item(%slit%, %ilit%)",
             "world.Item(%slit%, 1, %blit%, {%slit%}, %list%, "
             "\"lock_in_slot\")", "world.Item(%slit%, lock=%slit%)"],
    "fstr": ["%slit%", "%int%", "%bool%", "print.format(%slit%)",
             "print.format(\"%%0 %%1\", %fstr%, %int%)",
             "print.format(\"a %%a %%0 %%%%\", %bool%, a=%int%)",
             "print.format(\"%%(a) %%b\", a=%ent%, b=%fstr%)",
             "print.translate(%slit%, %fstr%)",
             "print.translate(%slit%)",
             "print.with_font(%fstr%, \"red\", %blit%)",
             "print.with_font(%fstr%, italic=True, obfuscated=%blit%)"],
    "task": ["tk", "schedule.Task(tick_)", "schedule.Task(fn, %int%)",
             "schedule.Task(fn, %int%, b=%bool%)", "schedule.Task(ev.m, 1)",
             "schedule.Task(il, %lit%, vi, 2)"],
    "any": ["%int%", "%bool%", "%slit%", "%lit%", "%list%", "%map%", "%ent%",
            "%grp%", "%pos%", "%off%", "%rot%", "%filter%", "%block%",
            "%item%", "%fstr%", "%task%", "sv", "ST()", "ST(%int%, %bool%)",
            "ST(y=%bool%)", "EN", "ev.m", "EN.sc", "fn", "tick_", "None",
            "tick_()", "gv.clear()", "nope", "Any", "list", "Pos",
            "Engroup[EN]"],
    "stmt": [
        "vi = %int%", "vb = %bool%", "zz := %any%", "zz: int = %int%",
        "zz: bool = %bool%", "zz: EN = %ent%", "zz: Entity = %ent%",
        "zz: Engroup[EN] = %grp%", "&zz = %any%", "const zz = %any%",
        "const zz: int = %ilit%", "vi += %int%", "vi *= %int%",
        "vi /= %int%", "vi %= %int%", "ev = %ent%", "gv = %grp%",
        "gv += %grp%", "gv -= %grp%", "gv &= %grp%", "sv = %any%",
        "sv.x = %int%", "ev.f = %int%", "%any%", "swap(vi, %int%)",
        "swap(%any%, %any%)", "gv.add(%ent%)", "gv.remove(%ent%)",
        "gv.select(%filter%)", "gv.drop(%filter%)", "gv.filter(%filter%)",
        "gv.clear()", "for zz in %list%:\n    %stmt%",
        "for zz in %grp%:\n    %stmt%", "for zz in %map%:\n    %stmt%",
        "if %bool%:\n    %stmt%\nelse:\n    %stmt%",
        "while %bool%:\n    vi += 1\n    %stmt%",
        "/say ${%lit%} ${%any%}", "print.tell(%fstr%)",
        "print.tell(%fstr%, %psel%)",
        "print.title(%fstr%, %psel%, print.TITLE, 1, 2, 3)",
        "print.title_clear(%psel%)", "print.title(%fstr%, "
        "mode=print.ACTIONBAR)", "schedule.register_loop(tick_, %int%)",
        "schedule.register_loop(fn, %int%, %int%)", "%task%.after(%int%)",
        "const zt = %task%\nzt.after(%int%)\nzt.cancel()",
        "world.clone(%pos%, %off%, %off%, \"move\", %blit%)",
        "world.clone_only(%pos%, %off%, %off%, %block%)",
        "world.fill(%pos%, %off%, %block%)",
        "world.fill(%pos%, %off%, %block%, \"hollow\")",
        "world.fill_replace(%pos%, %off%, %block%, %block%)",
        "world.setblock(%pos%, %block%)",
        "world.setblock(%pos%, %block%, \"destroy\")",
        "world.damage(%sel%, %ilit%, %slit%, %ent%)",
        "world.damage(%sel%, %ilit%)",
        "world.effect_give(%sel%, %slit%, %ilit%, 1, %blit%)",
        "world.effect_clear(%sel%)", "world.enchant(%sel%, %slit%, %ilit%)",
        "world.event_entity(%sel%, %slit%)", "world.kill(%sel%)",
        "world.msg_me(%ent%, %slit%)",
        "world.replaceitem_block(%pos%, %ilit%, %item%, 2, %blit%)",
        "world.replaceitem_entity(%sel%, %slit%, %ilit%, %item%)",
        "world.ride_start_tp_ride(%ent%, %ent%)",
        "world.ride_start_tp_rider(%sel%, %ent%)", "world.ride_stop(%sel%)",
        "world.ride_evict_riders(%sel%)",
        "world.summon_rider(%sel%, %slit%)",
        "world.summon_ride(%sel%, %slit%, None, %slit%, "
        "\"reassign_rides\")", "world.msg_say(%ent%, %slit%)",
        "world.spread(%sel%, %pos%, %flit%, %flit%)",
        "world.summon(%slit%, %pos%)",
        "world.summon(%slit%, %pos%, %slit%, %slit%, %rot%)",
        "world.tag_add(%sel%, %slit%)", "world.tag_remove(%sel%, %slit%)",
        "world.msg_tell(%ent%, %sel%, %slit%)",
        "world.tp(%sel%, %pos%, %blit%)", "world.rotate(%sel%, %rot%)",
        "world.move(%sel%, %flit%, %flit%, %flit%)",
        "world.move_local(%sel%, front=%flit%)",
        "world.ability(%psel%, %slit%, %blit%)",
        "world.clear_inventory(%psel%)",
        "world.clear(%psel%, %slit%, %ilit%, %ilit%)",
        "world.spawnpoint_clear(%psel%)",
        "world.gamemode(%psel%, \"creative\")",
        "world.give(%psel%, %item%, %ilit%)", "world.kick(%slit%, %slit%)",
        "world.recipe(%psel%, %slit%, %blit%)",
        "world.spawnpoint_set(%psel%, %pos%)",
        "world.xp_add_levels(%psel%, %ilit%)",
        "world.xp_add_points(%psel%, %ilit%)",
        "def zf(a: int, b: bool = %blit%) -> int:\n    result %int%\nzf(%int%)",
        "inline def zf(const a, b: int = %any%):\n    result %any%\n"
        "zz := zf(%lit%)",
        "inline def zf(&a: %type%, b):\n    a = b\nzf(%any%, %any%)",
        "def zf(a: %type%, b: %type%) -> %type%:\n    result %any%\n"
        "zz := zf(%any%, %any%)",
        "zz: %type%\nzz = %any%",
        "struct ZS:\n    a: %type%\n    b: %type%\n"
        "zz := ZS(a=%any%)\nzz.b = %any%",
        "entity ZE extends EN:\n    a: %type%\n    new():\n        EN.new()\n"
        "        self.a = %any%\n    override def vm(a: int) -> int:\n"
        "        result %int%\nzz: EN = ZE()\nzz.vm(%int%)",
    ],
    "type": ["int", "bool", "EN", "Entity", "ST", "Engroup[EN]", "None",
             "E2", "list", "map", "Pos", "float", "Any", "Engroup", "nope",
             "ExternEngroup", "schedule.Task", "world.Block", "Enfilter",
             "int.MAX", "3"],
    # compile time functions
    "ctstmt": [
        "zz := %ct%", "zz: %cttype% = %ct%", "qa = %ct%", "ql = %ct%",
        "qa += %ct%", "ql.append(%ct%)", "ql.insert(%ct%, %ct%)",
        "ql.extend(%ct%)", "ql.reverse()", "ql.pop(%ct%)", "ql.pop()",
        "qm.update(%ct%)", "qm.pop(%ct%)", "qm.pop(%ct%, %ct%)",
        "qm.set_default(%ct%, %ct%)", "qm.clear()", "ql[%ct%] = %ct%",
        "qm[%ct%] = %ct%", "&zz = ql[%ct%]", "&zz = %ct%",
        "for zz in %ct%:\n    %ctstmt%", "if %ct%:\n    %ctstmt%\nelse:\n"
        "    %ctstmt%", "result %ct%", "%ct%", "ql[%ct%] += %ct%",
        "const zz = %ct%", "zz: %cttype%", "qm[%ct%] %= %ct%"],
    "cttype": ["int", "bool", "list", "map", "float", "Any", "Pos", "None",
               "EN", "ST", "Enfilter", "nope", "Offset", "Rot", "Entity",
               "Engroup[EN]", "world.Block", "world.Item", "schedule.Task",
               "print.format", "\"a\""],
    "ct": ["%ilit%", "%ilit%", "%blit%", "%slit%", "%flit%", "%list%",
           "%map%", "None", "qa", "ql", "qm", "ql[%ct%]", "qm[%ct%]",
           "qm.get(%ct%)", "ql.slice(%ct%)", "ql.size()", "ql.copy()",
           "Pos(%ct%, %ct%, %ct%)", "Offset(%ct%)", "Offset.local(%ct%)",
           "Rot(%ct%, %ct%)", "%ct% + %ct%", "%ct% - %ct%", "%ct% * %ct%",
           "%ct% / %ct%", "%ct% % %ct%", "-%ct%", "not %ct%", "%ct% == %ct%",
           "%ct% < %ct%", "%ct% >= %ct%", "%ct% and %ct%", "%ct% or %ct%",
           "{%ct%, %ct%}", "{%ct%: %ct%}", "\"a${%ct%}\"", "cd(%ct%)",
           "Enfilter()", "Enfilter().is_type(%ct%)",
           "Enfilter().inside(%ct%, %ct%)", "world.Block(%ct%, %ct%)",
           "world.Item(%ct%)", "print.format(%ct%, %ct%)",
           "print.with_font(%ct%, %ct%)", "print.translate(%ct%)",
           "math.min(%ct%, %ct%)", "math.max(%ct%)", "math.mod(%ct%, %ct%)",
           "math.pow(%ct%, %ct%)", "math.floordiv(%ct%, %ct%)", "int",
           "int.MIN", "int(%ct%)", "list(%ct%)", "list.range(%ct%)",
           "map(%ct%, %ct%)", "map.from_keys(%ct%, %ct%)", "Pos", "EN", "ST",
           "vi", "ev", "sv", "fn", "fn(%ct%)", "EN.sc(%ct%)", "EN()",
           "ST(%ct%, %ct%)", "schedule.Task(%ct%)", "scb(%ct%, %ct%)",
           "Engroup[%ct%]", "Engroup[EN]()", "AbsPos(%ct%, %ct%, %ct%)",
           "self", "math", "math.nope", "%ct%.x", "%ct%.copy()", "nope",
           "Offset().abs(%ct%)", "Pos(0, 0, 0).offset(%ct%)",
           "Pos(0, 0, 0).apply(%ct%)", "Pos(0, 0, 0).align(%ct%)",
           "Pos(0, 0, 0).dim(%ct%)", "Pos(0, 0, 0).local(%ct%)",
           "Rot(0, 0).abs(%ct%)", "AbsPos(0, 0, 0).x", "upcast(%ct%, %ct%)"],
}


def derive(rng, sym, depth=0, wrong=.04):
    """a random expression or statement of that kind"""
    if rng.random() < wrong:
        sym = rng.choice(["any", "lit", "type", "int", "ent", "pos"]
                         if sym not in ("stmt", "ctstmt") else [sym])
    prods = LIB[sym]
    if depth > 3:
        short = [p for p in prods if p.count("%") < 2 or "%%" in p]
        prods = short or prods[:1]
    p = rng.choice(prods)
    parts = []
    i = 0
    import re
    for m in re.finditer(r"%(\w+)%|%%", p):
        parts.append(p[i:m.start()])
        i = m.end()
        if m.group(1) is None:
            parts.append("%")
        else:
            s = derive(rng, m.group(1), depth + 1, wrong)
            line = p[:m.start()].rsplit("\n", 1)[-1]
            ind = len(line) - len(line.lstrip())
            s = s.replace("\n", "\n" + " " * ind)
            if " " in s and m.group(1) not in ("stmt", "ctstmt", "type",
                                               "cttype") \
                    and not p.startswith(("vi", "zz", "const")):
                if rng.random() < .8 and "\n" not in s:
                    s = "(%s)" % s
            parts.append(s)
    parts.append(p[i:])
    return "".join(parts)
