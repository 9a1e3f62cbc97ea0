---------------------------------- MODULE Nets ----------------------------------
(* The networks as shape machines and as uninterpreted functions.

   A U-shaped network walks down c.mults levels, pushing two feature maps per level (and the
   first one) on a stack, halving the resolution between levels, and walks back up, popping
   them in reverse order: a pop is possible only when the resolutions agree.  Every residual
   block splits its channels into c.groups groups.

   As a function a network is F(parameters, image, time / dt), the same for an image on its
   own or in any batch, with one shared time or with one time per image, directly or through
   the functional wrappers: outputs are observed as classes (equal up to rounding or not),
   and two outputs have the same class exactly when their arguments are the same. *)
EXTENDS Num, Clauses, TLC

Lev(c) == Len(c.mults)
Ch(c, i) == IF i = 0 THEN c.init ELSE c.dim * c.mults[i]      \* channels of level i = 1..Lev, 0 the input level
Start(c) == [ph |-> "down", i |-> 1, h |-> c.h, w |-> c.w, ch |-> c.init, st |-> << <<c.h, c.w, c.init>> >>, blocks |-> <<>>]
Top(s) == s.st[Len(s.st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
Down(c, s) ==
  LET m == <<s.h, s.w, s.ch>>
      t == [s EXCEPT !.st = Append(Append(@, m), m), !.blocks = @ \o <<s.ch, s.ch>>] IN
  IF s.i < Lev(c) THEN [t EXCEPT !.i = @ + 1, !.h = @ \div 2, !.w = @ \div 2, !.ch = Ch(c, s.i)]
  ELSE [t EXCEPT !.ph = "mid", !.ch = Ch(c, s.i)]
Mid(c, s) == [s EXCEPT !.ph = "up", !.blocks = @ \o <<s.ch, s.ch>>]
Fits(s) == Len(s.st) > 0 /\ Top(s)[1] = s.h /\ Top(s)[2] = s.w
CanUp(c, s) == Fits(s) /\ Fits([s EXCEPT !.st = Pop(@)])
Up(c, s) ==
  LET t == [s EXCEPT !.st = Pop(Pop(@)), !.blocks = @ \o <<Ch(c, s.i), Ch(c, s.i)>>] IN
  IF s.i > 1 THEN [t EXCEPT !.i = @ - 1, !.h = 2 * @, !.w = 2 * @, !.ch = Ch(c, s.i - 1)]
  ELSE [t EXCEPT !.ph = "final", !.ch = c.init]
Final(c, s) == [s EXCEPT !.ph = "done", !.st = Pop(@), !.ch = c.out, !.blocks = Append(@, c.dim)]
Enabled(c, s) == CASE s.ph = "down" -> TRUE [] s.ph = "mid" -> TRUE [] s.ph = "up" -> CanUp(c, s) [] s.ph = "final" -> Fits(s) [] OTHER -> FALSE
Next1(c, s) == CASE s.ph = "down" -> Down(c, s) [] s.ph = "mid" -> Mid(c, s) [] s.ph = "up" -> Up(c, s) [] OTHER -> Final(c, s)
RECURSIVE Run(_, _)
Run(c, s) == IF Enabled(c, s) THEN Run(c, Next1(c, s)) ELSE s
\* the output of the network for the configuration: height, width, channels
OutShape(c) == LET s == Run(c, Start(c)) IN IF s.ph = "done" THEN <<s.h, s.w, s.ch>> ELSE <<>>
Div(k, n) == n % k = 0
AdmSize(c) == Div(TwoPow(Lev(c) - 1), c.h) /\ Div(TwoPow(Lev(c) - 1), c.w)
AdmGroups(c) == Div(c.groups, c.init) /\ Div(c.groups, c.dim) /\ \A i \in 1..Lev(c) : Div(c.groups, Ch(c, i))

\* ---- depth to space
Code(c, b, h, w, k) == ((b * c.h + h) * c.w + w) * c.k + k
Shuffled(c, b, y, x, k) == LET C == c.k \div (c.s * c.s) IN
                           Code(c, b, y \div c.s, x \div c.s, (((y % c.s) * c.s) + (x % c.s)) * C + k)

\* ---- sine and cosine in units of 2^-14 for |x| <= 1
U == 16384
FM(a, b) == (a * b) \div U
FSin(x) == LET z == FM(x, x) IN x - FM(FM(x, z), U \div 6) + FM(FM(FM(x, z), z), U \div 120) - (FM(FM(FM(x, z), z), z) \div 5040)
FCos(x) == LET z == FM(x, x) IN U - (z \div 2) + (FM(z, z) \div 24) - (FM(FM(z, z), z) \div 720)
Freq(c, k) == RPow(<<1, c.r>>, k)
Near(a, b, tol) == Abs(a - b) <= tol

\* ---- a linear network: params A (inputs by outputs) and offsets, given by the layout
Pick(lay, p) == [i \in 1..Len(lay) |-> [j \in 1..Len(lay[i]) |-> p[lay[i][j] + 1]]]
Flat(m) == IF m = <<>> THEN <<>> ELSE [i \in 1..(Len(m) * Len(m[1])) |-> m[((i - 1) \div Len(m[1])) + 1][((i - 1) % Len(m[1])) + 1]]
LinOut(A, b, x) == [k \in 1..Len(b) |-> RAdd(RSumSeq([j \in 1..Len(x) |-> RMul(x[j], R(A[j][k]))]), R(b[k]))]
StOut(A, b, x, t) == [k \in 1..Len(b) |-> RAdd(RSumSeq([j \in 1..Len(x) |-> RMul(x[j], R(A[j][k]))]), RMul(t, R(b[k])))]

VInit(c) == [n |-> 0, known |-> {}, A |-> <<>>, b |-> <<>>]
Tm(e, i) == RMul(IF Len(e.t) = 1 THEN e.t[1] ELSE e.t[i], RInv(e.dt))
Keys(e) == {<< <<e.p, e.x[i], Tm(e, i)>>, e.cls[i]>> : i \in 1..Len(e.x)}
Functional(S) == \A u \in S : \A v \in S : (u[1] = v[1]) <=> (u[2] = v[2])
VClauses(c, s, e) ==
  CASE e.e = "call" ->
         << <<"output shape", e.shape = (IF e.n = 0 THEN <<>> ELSE <<e.n>>) \o (IF c.kind = "unet" THEN OutShape(c) ELSE c.oshape)>>,
            <<"one output per image", Len(e.cls) = Len(e.x)>>,
            <<"an image's output depends on that image, its time and the parameters alone",
              Len(e.cls) = Len(e.x) /\ Functional(s.known \cup Keys(e))>> >>
    [] e.e = "flat" ->
         << <<"output size", e.size = Len(e.x) * c.osize>>,
            <<"an input's output depends on that input, its time and the parameters alone",
              Len(e.cls) = Len(e.x) /\ Functional(s.known \cup Keys(e))>> >>
    [] e.e = "shuffle" ->
         LET C == c.k \div (c.s * c.s) IN
         << <<"shape of the shuffled image", e.shape = <<c.b, c.h * c.s, c.w * c.s, C>> >>,
            <<"depth to space", e.shape = <<c.b, c.h * c.s, c.w * c.s, C>> =>
               \A b \in 1..c.b : \A y \in 1..(c.h * c.s) : \A x \in 1..(c.w * c.s) : \A k \in 1..C :
                  e.out[b][y][x][k] = Shuffled(c, b - 1, y - 1, x - 1, k - 1)>> >>
    [] e.e = "embed" ->      \* t times the frequencies r^-0 .. r^-(half - 1): sines, then cosines
         << <<"size of the embedding", Len(e.v) = 2 * c.half>>,
            <<"sines of the scaled time", Len(e.v) = 2 * c.half => \A k \in 1..c.half : Near(e.v[k], FSin(Fix(RMul(e.t, Freq(c, k - 1)), 14)), 10)>>,
            <<"cosines of the scaled time", Len(e.v) = 2 * c.half => \A k \in 1..c.half : Near(e.v[c.half + k], FCos(Fix(RMul(e.t, Freq(c, k - 1)), 14)), 10)>> >>
    [] e.e = "add" ->        \* embeddings of u, v and u + v, for any times: the addition theorems
         << <<"size of the embedding", Len(e.u) = 2 * c.half /\ Len(e.v) = 2 * c.half /\ Len(e.w) = 2 * c.half>>,
            <<"sum of times", \A k \in 1..c.half :
                /\ Near(e.w[k], FM(e.u[k], e.v[c.half + k]) + FM(e.u[c.half + k], e.v[k]), 16)
                /\ Near(e.w[c.half + k], FM(e.u[c.half + k], e.v[c.half + k]) - FM(e.u[k], e.v[k]), 16)>> >>
    [] e.e = "layout" ->
         LET f == Flat(e.A) \o e.b IN
         << <<"as many parameters as the network has", e.n = Len(f) /\ Len(f) = (c.din + 1) * c.dout>>,
            <<"every entry of the array is one parameter", {f[i] : i \in 1..Len(f)} = 0..(Len(f) - 1)>> >>
    [] e.e = "init" -> << <<"initial parameters are the network's for the key", e.A = e.wA /\ e.b = e.wb>> >>
    [] e.e = "st" ->
         << <<"shape", Len(e.y) = Len(e.x)>>,
            <<"network evaluated at the given parameters", Len(e.y) = Len(e.x) /\ \A i \in 1..Len(e.x) :
                CloseSeq(e.y[i], StOut(Pick(s.A, e.p), Pick(<<s.b>>, e.p)[1], e.x[i], IF Len(e.t) = 1 THEN e.t[1] ELSE e.t[i]), 4)>> >>
    [] e.e = "wt" ->
         << <<"shape", Len(e.y) = Len(e.x)>>,
            <<"network evaluated at the given parameters", Len(e.y) = Len(e.x) /\ \A i \in 1..Len(e.x) :
                CloseSeq(e.y[i], LinOut(Pick(s.A, e.p), Pick(<<s.b>>, e.p)[1], Append(e.x[i], RMul(e.t[i], c.scale))), 4)>> >>
    [] e.e = "refused" -> << <<"odd embedding sizes are refused", e.ok>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
VStep(c, s, e) == CASE e.e \in {"call", "flat"} -> [s EXCEPT !.known = @ \cup Keys(e)]
                    [] e.e = "layout" -> [s EXCEPT !.A = e.A, !.b = e.b]
                    [] OTHER -> s
VEnd(c, s) == << >>
================================================================================
