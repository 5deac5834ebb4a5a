From acfcb263dbc4b32bbc913e1807f15c2286da51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 01/15] fix: integrate_diffrax must end at t0 + dt*nsteps, not
 dt*nsteps

---
 ormatex_py/integrate_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/integrate_wrapper.py b/ormatex_py/integrate_wrapper.py
index 84e75d4..6eaf5af 100644
--- a/ormatex_py/integrate_wrapper.py
+++ b/ormatex_py/integrate_wrapper.py
@@ -150,7 +150,7 @@ def integrate_diffrax(ode_sys, y0, t0, dt, nsteps, method="implicit_euler", **kw
         solver = method_dict[method](root_finder=root_finder)
     except:
         solver = method_dict[method]()
-    tf = dt * nsteps
+    tf = t0 + dt * nsteps
     step_ctrl = diffrax.ConstantStepSize()
     res = diffrax.diffeqsolve(
             diffrax_ode_sys,
-- 
2.43.0


From 6614f09bad7fff21e900bfca02392c2b50837610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 02/15] fix: IntegrateSys.state must return the current state

---
 ormatex_py/ode_sys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7621263..7ebc3b2 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -588,4 +588,4 @@ class IntegrateSys(metaclass=ABCMeta):
         """
         current state
         """
-        self.y_hist[0]
+        return self.y_hist[0]
-- 
2.43.0


From 0692b09986b75fecec362297e6b00033438fdc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 03/15] fix: RKIntegrator.step must accept frhs_kwargs like the
 other integrators

---
 ormatex_py/ode_explicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/ode_explicit.py b/ormatex_py/ode_explicit.py
index 55e345d..e78b15a 100644
--- a/ormatex_py/ode_explicit.py
+++ b/ormatex_py/ode_explicit.py
@@ -57,7 +57,7 @@ class RKIntegrator(IntegrateSys):
 
         return StepResult(t+dt, dt, y_new, y_err)
 
-    def step(self, dt: float) -> StepResult:
+    def step(self, dt: float, frhs_kwargs: dict={}) -> StepResult:
         if self.method == "rk4":
             return self._step_rk4(dt)
         else:
-- 
2.43.0


From 19b5cebd1a64bf06187f5a584f40af8bf8ee12b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 04/15] fix: FdJacLinOp must use a nonzero increment at the
 zero state

---
 ormatex_py/ode_sys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7ebc3b2..7afc049 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -326,6 +326,8 @@ class FdJacLinOp(SysJacLinOp):
             v: target vector to apply linop to
         """
         u_norm_1 = jnp.linalg.norm(self._u, 1)
+        # keep the increment nonzero at the zero state
+        u_norm_1 = jnp.where(u_norm_1 > 0., u_norm_1, 1.)
         scaled_eps = self._eps * u_norm_1
         ieps = self._scale / scaled_eps
         u_pert = self._u + scaled_eps*v
-- 
2.43.0


From ec3b506ca520666579b25543eb29dabda75f3fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 05/15] fix: forward abort_tol when all Leja points are real

---
 ormatex_py/matexp_leja.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index cae41ad..16fa179 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -329,7 +329,7 @@ def complex_conj_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: float,
     print(f"jit-compiling complex_conj_leja_expmv")
     n_leja = len(leja_x)
     if (n_leja_real == n_leja):
-        return real_leja_expmv(a_lo, dt, u, shift, scale, leja_x, coeffs, tol)
+        return real_leja_expmv(a_lo, dt, u, shift, scale, leja_x, coeffs, tol, abort_tol)
 
     # apply scale and shift to leja points for readability
     leja_x_sc = shift + scale*leja_x
-- 
2.43.0


From 575bf2a165c4dc7b14e22bd5dd6125e44e047d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 06/15] fix: gen_leja_fast must rank its first candidates by
 the chosen points only

---
 ormatex_py/matexp_leja.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index 16fa179..6b82fe0 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -145,8 +145,8 @@ def gen_leja_fast(a: float=-2., b: float=2., n: int=100):
     zs[0] = (zt[1]+zt[2])/2.
     zs[1] = (zt[2]+zt[0])/2.
     zprod = np.zeros(n)
-    zprod[0] = np.prod(zs[0]- np.asarray(zt))
-    zprod[1] = np.prod(zs[1]-np.asarray(zt))
+    zprod[0] = np.prod(zs[0]-zt[0:3])
+    zprod[1] = np.prod(zs[1]-zt[0:3])
     index = np.zeros((n,2), dtype=int)
     index[0,0] = 1
     index[0,1] = 2
-- 
2.43.0


From 6362b476a9787cae80d7f578225f260905657cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 07/15] fix: high-order Pade partial fraction tables must not
 lose the exponential

The tabulated poles and residues of the order 10..16 tables carried relative
errors up to 5e-8, which the large residues amplified to errors of exp(0)
between 7.5e-7 (pade_10_10) and 16 (pade_16_16). Tabulate both rounded from
an 80 digit computation.
---
 ormatex_py/matexp_phi_pfd_dict.py | 314 +++++++++++++++---------------
 1 file changed, 157 insertions(+), 157 deletions(-)

diff --git a/ormatex_py/matexp_phi_pfd_dict.py b/ormatex_py/matexp_phi_pfd_dict.py
index 2469209..363d9de 100644
--- a/ormatex_py/matexp_phi_pfd_dict.py
+++ b/ormatex_py/matexp_phi_pfd_dict.py
@@ -250,71 +250,71 @@ pfd_dict = {
    ],
   1.00000000000000e+00),
 'pade_10_10':
-([  6.21783246729821e+00-1.64653989181475e+01j,
-    9.77243913371641e+00-1.24499709649411e+01j,
-    1.19350566571826e+01-8.76989437788469e+00j,
-    1.32305819309422e+01-5.22313584161276e+00j,
-    1.38440898108606e+01-1.73533039087163e+00j,
-   ],
- [ -4.28439839038208e+00-5.11065755249477e+02j,
-   -1.13960793160596e+04+6.30112461260688e+03j,
-    9.41190589167495e+04+2.07599514175865e+04j,
-   -2.24510671286932e+05-2.30850608866744e+05j,
-    1.41901976088637e+05+5.53063875406852e+05j,
+([ 6.21783246729819616e+00-1.64653989181471765e+01j,
+   9.77243913371799877e+00-1.24499709649431338e+01j,
+   1.19350566571755721e+01-8.76989437788386361e+00j,
+   1.32305819309537398e+01-5.22313584160017985e+00j,
+   1.38440898108544914e+01-1.73533039090244290e+00j,
+   ],
+ [ -4.28439839026406943e+00-5.11065755249591575e+02j,
+   -1.13960793160403991e+04+6.30112461262945635e+03j,
+   9.41190589165869314e+04+2.07599514178755053e+04j,
+   -2.24510671289648599e+05-2.30850608866449067e+05j,
+   1.41901976087492338e+05+5.53063875404521939e+05j,
    ],
   1.00000000000000e+00),
 'pade_12_12':
-([  6.68604661560532e+00-2.02485936144845e+01j,
-    1.06594171817355e+01-1.61058137284905e+01j,
-    1.32220085000048e+01-1.23430699861422e+01j,
-    1.49311424804760e+01-8.74033918662028e+00j,
-    1.59945411994928e+01-5.21813307392645e+00j,
-    1.65068440226856e+01-1.73538714406579e+00j,
-   ],
- [  5.46911825752485e+02+6.80360699243456e+02j,
-    1.61337734195801e+04-2.97018812916309e+04j,
-   -3.54728405043439e+05+1.07516699938843e+05j,
-    1.75603924662652e+06+5.77890603673691e+05j,
-   -3.34000394047559e+06-3.77334398690651e+06j,
-    1.92216841199923e+06+7.94549540651937e+06j,
+([ 6.68604661560506663e+00-2.02485936144816385e+01j,
+   1.06594171817516585e+01-1.61058137285140646e+01j,
+   1.32220084999127039e+01-1.23430699860744593e+01j,
+   1.49311424807035404e+01-8.74033918670913046e+00j,
+   1.59945411992028692e+01-5.21813307389159675e+00j,
+   1.65068440228241613e+01-1.73538714401953764e+00j,
+   ],
+ [ 5.46911825751636002e+02+6.80360699246814420e+02j,
+   1.61337734184682085e+04-2.97018812917823452e+04j,
+   -3.54728405065351748e+05+1.07516699905682719e+05j,
+   1.75603924664747855e+06+5.77890603292735177e+05j,
+   -3.34000393988101557e+06-3.77334398775260895e+06j,
+   1.92216841305466904e+06+7.94549540612070076e+06j,
    ],
   1.00000000000000e+00),
 'pade_14_14':
-([  7.10217376676230e+00-2.40514760645021e+01j,
-    1.14407047677263e+01-1.97894151950504e+01j,
-    1.43447919238103e+01-1.59464347083066e+01j,
-    1.63976939410561e+01-1.22860821422987e+01j,
-    1.78220011108849e+01-8.72320835790319e+00j,
-    1.87262917005815e+01-5.21510664988429e+00j,
-    1.91663427891784e+01-1.73542205224497e+00j,
-   ],
- [ -1.36924413898026e+03-2.94842073103237e+02j,
-    6.59319538601401e+03+7.79273680273329e+04j,
-    8.24845869117295e+05-8.75088260655082e+05j,
-   -8.28511843071903e+06+1.36992091801833e+06j,
-    3.00847033195425e+07+1.22338494631399e+07j,
-   -4.89377678468590e+07-5.91446531945041e+07j,
-    2.63083230322416e+07+1.13711667927895e+08j,
+([ 7.10217376676125234e+00-2.40514760645090497e+01j,
+   1.14407047676550384e+01-1.97894151949783179e+01j,
+   1.43447919243436353e+01-1.59464347083699369e+01j,
+   1.63976939399769499e+01-1.22860821429415932e+01j,
+   1.78220011107500902e+01-8.72320835660489458e+00j,
+   1.87262917032191041e+01-5.21510664876333330e+00j,
+   1.91663427872939316e+01-1.73542205772850644e+00j,
+   ],
+ [ -1.36924413897231602e+03-2.94842073092578687e+02j,
+   6.59319537689948447e+03+7.79273680302011780e+04j,
+   8.24845868746355758e+05-8.75088261194237391e+05j,
+   -8.28511842837925255e+06+1.36992090995041723e+06j,
+   3.00847033426130414e+07+1.22338494464154094e+07j,
+   -4.89377678646896407e+07-5.91446532923037037e+07j,
+   2.63083231304715686e+07+1.13711667848871648e+08j,
    ],
   1.00000000000000e+00),
 'pade_16_16':
-([  7.47846359434389e+00-2.78700569516453e+01j,
-    1.21424827653080e+01-2.34957498768370e+01j,
-    1.53464815846813e+01-1.95753948759233e+01j,
-    1.76959363887348e+01-1.58575457183105e+01j,
-    1.94246526513030e+01-1.22515217728443e+01j,
-    2.06502392671595e+01-8.71232672952572e+00j,
-    2.14379715420598e+01-5.21313415919739e+00j,
-    2.18237722064098e+01-1.73544479521009e+00j,
-   ],
- [  1.90008725832969e+03-9.91098564053790e+02j,
-   -1.04343142558914e+05-1.28989202208025e+05j,
-   -7.60446708082224e+05+3.35225211392260e+06j,
-    2.55308244171525e+07-1.95447305410687e+07j,
-   -1.66999371998587e+08+1.24432648004869e+07j,
-    4.90194019013028e+08+2.28187105482266e+08j,
-   -7.10515108893301e+08-9.03571038487383e+08j,
-    3.62652953333272e+08+1.62341769071525e+09j,
+([ 7.47846359432174523e+00-2.78700569516267649e+01j,
+   1.21424827658173999e+01-2.34957498769617779e+01j,
+   1.53464815817343201e+01-1.95753948767381374e+01j,
+   1.76959363930055709e+01-1.58575457117787426e+01j,
+   1.94246526651270059e+01-1.22515217820435343e+01j,
+   2.06502392046829257e+01-8.71232676121921656e+00j,
+   2.14379716379560286e+01-5.21313401451657921e+00j,
+   2.18237721573550054e+01-1.73544505487144085e+00j,
+   ],
+ [ 1.90008725834708594e+03-9.91098563969719066e+02j,
+   -1.04343142653709991e+05-1.28989202195282254e+05j,
+   -7.60446712638051133e+05+3.35225210397183150e+06j,
+   2.55308245914798155e+07-1.95447306943944134e+07j,
+   -1.66999370692715645e+08+1.24432671770619601e+07j,
+   4.90194003401728570e+08+2.28187120259776443e+08j,
+   -7.10515169946168780e+08-9.03571049192018747e+08j,
+   3.62652874413709402e+08+1.62341767401688218e+09j,
    ],
   1.00000000000000e+00),
 
@@ -355,71 +355,71 @@ pfd_dict = {
    ],
   0.00000000000000e+00),
 'pade_9_10':
-([  5.22545336734417e+00-1.57295290456389e+01j,
-    8.77643464008579e+00-1.19218538983026e+01j,
-    1.09343034305864e+01-8.40967299600432e+00j,
-    1.22261314841869e+01-5.01271926366086e+00j,
-    1.28376770777968e+01-1.66606258419856e+00j,
-   ],
- [  1.18741401899989e+02-1.41303692321679e+02j,
-   -4.65536084639950e+03-1.90177301373340e+00j,
-    2.89165722700281e+04+1.81691851003442e+04j,
-   -6.12769997076806e+04-9.54085989073073e+04j,
-    3.69020468769566e+04+1.96990463528937e+05j,
+([ 5.22545336734436106e+00-1.57295290456392589e+01j,
+   8.77643464008260921e+00-1.19218538983012134e+01j,
+   1.09343034306000089e+01-8.40967299600309204e+00j,
+   1.22261314841621509e+01-5.01271926367686405e+00j,
+   1.28376770778108700e+01-1.66606258416230135e+00j,
+   ],
+ [ 1.18741401899896516e+02-1.41303692321723474e+02j,
+   -4.65536084639817363e+03-1.90177303058301383e+00j,
+   2.89165722703242318e+04+1.81691851000964416e+04j,
+   -6.12769997058515073e+04-9.54085989073240198e+04j,
+   3.69020468800255476e+04+1.96990463529003639e+05j,
    ],
   0.00000000000000e+00),
 'pade_11_12':
-([  5.69357760582991e+00-1.94846293682976e+01j,
-    9.66460291604750e+00-1.55269887259726e+01j,
-    1.22232279800981e+01-1.19133708538269e+01j,
-    1.39287203046700e+01-8.44249696597909e+00j,
-    1.49894720849745e+01-5.04267301327654e+00j,
-    1.55003991083799e+01-1.67740907543385e+00j,
-   ],
- [ -1.97704170847133e+01+3.16226175536364e+02j,
-    1.06011986654780e+04-5.99471349030070e+03j,
-   -1.31630215734835e+05-1.58024463608002e+04j,
-    5.40875915627455e+05+3.73470946067090e+05j,
-   -9.41733184605207e+05-1.51555073365930e+06j,
-    5.21912056860810e+05+2.84094757356084e+06j,
+([ 5.69357760583048478e+00-1.94846293682976857e+01j,
+   9.66460291603877764e+00-1.55269887259769011e+01j,
+   1.22232279801269357e+01-1.19133708537901626e+01j,
+   1.39287203046513799e+01-8.44249696607331046e+00j,
+   1.49894720849360663e+01-5.04267301319419836e+00j,
+   1.55003991084163584e+01-1.67740907542671547e+00j,
+   ],
+ [ -1.97704170844907452e+01+3.16226175536523272e+02j,
+   1.06011986654066477e+04-5.99471349016484965e+03j,
+   -1.31630215740166837e+05-1.58024463595246671e+04j,
+   5.40875915592674748e+05+3.73470946051151666e+05j,
+   -9.41733184621609515e+05-1.51555073373935348e+06j,
+   5.21912056520779501e+05+2.84094757369523356e+06j,
    ],
   0.00000000000000e+00),
 'pade_13_14':
-([  6.10953706591465e+00-2.32659732506401e+01j,
-    1.04466532469207e+01-1.91718385658776e+01j,
-    1.33474860188306e+01-1.54639361326311e+01j,
-    1.53970406477107e+01-1.19224339985898e+01j,
-    1.68185419182397e+01-8.46894658249756e+00j,
-    1.77208535276966e+01-5.06457474988492e+00j,
-    1.81598875746869e+01-1.68556744377056e+00j,
-   ],
- [ -2.85701447048604e+02-4.22573770325228e+02j,
-   -1.39506796509646e+04+2.46549472535032e+04j,
-    4.07088889460134e+05-1.47454862119014e+05j,
-   -2.95428486119008e+06-5.61988919680626e+05j,
-    9.34405927211906e+06+6.84178627383522e+06j,
-   -1.41689554474545e+07-2.33291738715078e+07j,
-    7.38633554605862e+06+4.07747800108961e+07j,
+([ 6.10953706591082568e+00-2.32659732506468941e+01j,
+   1.04466532469180926e+01-1.91718385658013624e+01j,
+   1.33474860189496454e+01-1.54639361328642106e+01j,
+   1.53970406475504671e+01-1.19224339983808445e+01j,
+   1.68185419175290498e+01-8.46894658268211131e+00j,
+   1.77208535297202978e+01-5.06457474842360877e+00j,
+   1.81598875734216207e+01-1.68556744734413266e+00j,
+   ],
+ [ -2.85701447047505155e+02-4.22573770319719642e+02j,
+   -1.39506796537276441e+04+2.46549472543650481e+04j,
+   4.07088889354343293e+05-1.47454862201130571e+05j,
+   -2.95428486151678814e+06-5.61988920836155536e+05j,
+   9.34405927331187017e+06+6.84178627391215414e+06j,
+   -1.41689554604889732e+07-2.33291738811528720e+07j,
+   7.38633554044032376e+06+4.07747800012043267e+07j,
    ],
   0.00000000000000e+00),
 'pade_15_16':
-([  6.48562832446504e+00-2.70674101802466e+01j,
-    1.11489235555244e+01-2.28473895034394e+01j,
-    1.43502762939532e+01-1.90510873637885e+01j,
-    1.66967416249338e+01-1.54420808743659e+01j,
-    1.84227189032095e+01-1.19357250047256e+01j,
-    1.96460972994385e+01-8.49034450829802e+00j,
-    2.04322978545394e+01-5.08129521532765e+00j,
-    2.08173161439358e+01-1.69171657421277e+00j,
-   ],
- [  7.46675121903952e+02+2.33418714884332e+02j,
-   -2.91507593718632e+03-6.02533142595452e+04j,
-   -8.32343305819814e+05+9.23999524382099e+05j,
-    1.12187257385282e+07-2.85904191440928e+06j,
-   -5.84396390181135e+07-1.38271664342395e+07j,
-    1.53739961173302e+08+1.17150191552697e+08j,
-   -2.10257270578443e+08-3.52009232070284e+08j,
-    1.04572686874704e+08+5.83415456608851e+08j,
+([ 6.48562832449477789e+00-2.70674101802451652e+01j,
+   1.11489235551544326e+01-2.28473895039123569e+01j,
+   1.43502762938985029e+01-1.90510873589179575e+01j,
+   1.66967416372793807e+01-1.54420808926594422e+01j,
+   1.84227188449675232e+01-1.19357249777674426e+01j,
+   1.96460974294032695e+01-8.49034449412191883e+00j,
+   2.04322976983797773e+01-5.08129533989982374e+00j,
+   2.08173162164223378e+01-1.69171634288156048e+00j,
+   ],
+ [ 7.46675121934575941e+02+2.33418714875682525e+02j,
+   -2.91507593846542886e+03-6.02533142149703344e+04j,
+   -8.32343312083687051e+05+9.23999525970579241e+05j,
+   1.12187255804618374e+07-2.85904207613255223e+06j,
+   -5.84396389200107828e+07-1.38271692287379019e+07j,
+   1.53739970730194598e+08+1.17150181849000320e+08j,
+   -2.10257243438444972e+08-3.52009232558807731e+08j,
+   1.04572705760699540e+08+5.83415465345084310e+08j,
    ],
   0.00000000000000e+00),
 
@@ -474,57 +474,57 @@ pfd_dict = {
    ],
   0.00000000000000e+00),
 'pade_10_12':
-([  4.70228142811029e+00-1.86890942420089e+01j,
-    8.67056097339053e+00-1.49254273078317e+01j,
-    1.12246068339195e+01-1.14673703426701e+01j,
-    1.29259172791502e+01-8.13362237863904e+00j,
-    1.39836392311261e+01-4.86081102719189e+00j,
-    1.44929942543034e+01-1.61733100604584e+00j,
-   ],
- [ -8.49832831880236e+01+7.75367860453999e+01j,
-    4.37578428468484e+03+2.83201434389032e+02j,
-   -4.04045377690810e+04-2.46586957214072e+04j,
-    1.44784834972791e+05+1.82669966461450e+05j,
-   -2.34618958097715e+05-5.84473205187368e+05j,
-    1.25947859854496e+05+1.00930377761925e+06j,
+([ 4.70228142811125327e+00-1.86890942420081885e+01j,
+   8.67056097338856269e+00-1.49254273078468831e+01j,
+   1.12246068338927305e+01-1.14673703425990006e+01j,
+   1.29259172792784351e+01-8.13362237877641192e+00j,
+   1.39836392309088353e+01-4.86081102708195623e+00j,
+   1.44929942544201822e+01-1.61733100605902536e+00j,
+   ],
+ [ -8.49832831881570314e+01+7.75367860455253037e+01j,
+   4.37578428462068587e+03+2.83201434346137546e+02j,
+   -4.04045377701680773e+04-2.46586957245493031e+04j,
+   1.44784834977526974e+05+1.82669966430882254e+05j,
+   -2.34618958066332823e+05-5.84473205251103733e+05j,
+   1.25947859857541378e+05+1.00930377759115770e+06j,
    ],
   0.00000000000000e+00),
 'pade_12_14':
-([  5.11787189461895e+00-2.24527018231594e+01j,
-    9.45335791648157e+00-1.85334197602768e+01j,
-    1.23505043635501e+01-1.49656842626999e+01j,
-    1.43962858429022e+01-1.15471965661277e+01j,
-    1.58146338365384e+01-8.20671881319247e+00j,
-    1.67147257883642e+01-4.90937805514902e+00j,
-    1.71526203575448e+01-1.63417615340624e+00j,
-   ],
- [  3.61443014831873e+01-1.82295255726243e+02j,
-   -9.29367610371230e+03+4.34390374321708e+03j,
-    1.54332004514095e+05+2.08655132031941e+04j,
-   -9.16398034468283e+05-5.62363547717655e+05j,
-    2.60965182162727e+06+3.18944066032174e+06j,
-   -3.73564354639738e+06-8.93145939977566e+06j,
-    1.89731526905100e+06+1.45505505433651e+07j,
+([ 5.11787189461975345e+00-2.24527018231582502e+01j,
+   9.45335791647090318e+00-1.85334197602791875e+01j,
+   1.23505043636252463e+01-1.49656842627934576e+01j,
+   1.43962858424679947e+01-1.15471965655552555e+01j,
+   1.58146338379084312e+01-8.20671881452080676e+00j,
+   1.67147257862576062e+01-4.90937805365495095e+00j,
+   1.71526203586500650e+01-1.63417615440260255e+00j,
+   ],
+ [ 3.61443014833689915e+01-1.82295255726515876e+02j,
+   -9.29367610370536931e+03+4.34390374314427754e+03j,
+   1.54332004504428885e+05+2.08655131818608861e+04j,
+   -9.16398034526552889e+05-5.62363548487527529e+05j,
+   2.60965182373176608e+06+3.18944065404216480e+06j,
+   -3.73564353616983723e+06-8.93145941518865526e+06j,
+   1.89731527426241711e+06+1.45505505395974219e+07j,
    ],
   0.00000000000000e+00),
 'pade_14_16':
-([  5.49361318603890e+00-2.62399655049460e+01j,
-    1.01560781516715e+01-2.21798376257454e+01j,
-    1.33544760010611e+01-1.85117397684658e+01j,
-    1.56976183436254e+01-1.50149789135570e+01j,
-    1.74205593555198e+01-1.16112396752170e+01j,
-    1.86414951180119e+01-8.26233278072527e+00j,
-    1.94260023927384e+01-4.94590541832561e+00j,
-    1.98101574513328e+01-1.64681446196597e+00j,
-   ],
- [  1.26981292664858e+02+2.55930094697910e+02j,
-    1.24113743672713e+04-1.80844288017939e+04j,
-   -4.27793284860080e+05+1.38613103424770e+05j,
-    4.10778976637045e+06+6.84330756086048e+05j,
-   -1.83663341106143e+07-1.11861218996792e+07j,
-    4.43633025775970e+07+5.28146014031224e+07j,
-   -5.78177959583672e+07-1.34031344688548e+08j,
-    2.81283017741330e+07+2.08871467218483e+08j,
+([ 5.49361318603863591e+00-2.62399655049471932e+01j,
+   1.01560781516934089e+01-2.21798376257725494e+01j,
+   1.33544760008924221e+01-1.85117397680815507e+01j,
+   1.56976183439489052e+01-1.50149789161414144e+01j,
+   1.74205593554259899e+01-1.16112396642889575e+01j,
+   1.86414951184679651e+01-8.26233281010263632e+00j,
+   1.94260023907481880e+01-4.94590536566276473e+00j,
+   1.98101574527844839e+01-1.64681453015255364e+00j,
+   ],
+ [ 1.26981292664753610e+02+2.55930094697565096e+02j,
+   1.24113743663069381e+04-1.80844288023056142e+04j,
+   -4.27793284984062135e+05+1.38613103255720605e+05j,
+   4.10778976011278573e+06+6.84330749822156853e+05j,
+   -1.83663341822272353e+07-1.11861219853339121e+07j,
+   4.43633017526165992e+07+5.28146009176589251e+07j,
+   -5.78177987340761274e+07-1.34031345457979664e+08j,
+   2.81282963328990676e+07+2.08871466676735431e+08j,
    ],
   0.00000000000000e+00),
 
-- 
2.43.0


From da846be0cb774b1a1a1b037efe2fd434e1201f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 08/15] fix: linear part of the three species system must not
 negate a BCSR matrix

BCSR supports neither negation nor division, so fl raised NotImplementedError
and no split integrator could run. Densify first.
---
 ormatex_py/progression/rad_1d_3s.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/rad_1d_3s.py b/ormatex_py/progression/rad_1d_3s.py
index 10791c0..ef4db27 100644
--- a/ormatex_py/progression/rad_1d_3s.py
+++ b/ormatex_py/progression/rad_1d_3s.py
@@ -98,7 +98,7 @@ class RAD_SEM(OdeSplitSys):
         # only use Bateman terms for L
         #L = jnp.kron(self.bat_mat, jnp.eye(Ndof))
         # only use adv-diff terms for L
-        L = jnp.kron(jnp.eye(n), (- self.A / self.Ml.reshape((-1, 1))).todense())
+        L = jnp.kron(jnp.eye(n), - self.A.todense() / self.Ml.reshape((-1, 1)))
         #print(L)
         return MatrixLinOp(L)
 
-- 
2.43.0


From 05fa627250b3a65254bede246b8504103c544d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 09/15] fix: NonlinearBateman must use the tank volume it was
 given

The tank_vol argument was stored but the transfer term always used 100 cc.
---
 ormatex_py/progression/bateman_nonlin_sys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/bateman_nonlin_sys.py b/ormatex_py/progression/bateman_nonlin_sys.py
index f0628f1..261912e 100644
--- a/ormatex_py/progression/bateman_nonlin_sys.py
+++ b/ormatex_py/progression/bateman_nonlin_sys.py
@@ -123,7 +123,7 @@ class NonlinearBateman(OdeSplitSys):
         self.fis_vec = fission_vec
 
     def _frhs(self, t, u, **kwargs):
-        nonlin = srcf_xe_av(u, self.i_xe_a, self.i_xe_g)
+        nonlin = srcf_xe_av(u, self.i_xe_a, self.i_xe_g, tank_vol=self.tank_vol)
         bat = self.bat_mat @ u
         trans = self.n_phi * (self.trans_mat @ u)
         fis = self.n_phi * self.fis_vec
-- 
2.43.0


From ab9b292026dacd350cdc403feb3e9ad644d95f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 10/15] fix: upwind stabilization parameter for negative and
 zero velocity

tau must be h/(2|vel|): a negative velocity gave artificial anti-diffusion and
a zero velocity made every assembled matrix NaN, even without stabilization.
---
 ormatex_py/progression/advection_diffusion_1d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/progression/advection_diffusion_1d.py b/ormatex_py/progression/advection_diffusion_1d.py
index ba8ac74..20f896f 100644
--- a/ormatex_py/progression/advection_diffusion_1d.py
+++ b/ormatex_py/progression/advection_diffusion_1d.py
@@ -49,7 +49,9 @@ def tau_upwind_f(w):
     Computes the SUPG stabilization parameter using the standard
     upwind formulation.
     """
-    return w['tau'] * w.h[:] / (2 * vel_f(**w))
+    speed = np.abs(vel_f(**w))
+    # no upwinding where nothing is advected
+    return w['tau'] * w.h[:] / np.where(speed > 0, 2 * speed, np.inf)
 
 @fem.BilinearForm
 def adv_diff(u, v, w):
-- 
2.43.0


From 4af31acb1b559d228f66c19823608f00f39a6cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 11/15] fix: SUPG source term must have the sign of the
 residual it stabilizes

The mass and advection terms are tested with v + tau vel grad(v); the source was
tested with v - tau vel grad(v), so the stabilized scheme was inconsistent.
---
 ormatex_py/progression/advection_diffusion_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/advection_diffusion_1d.py b/ormatex_py/progression/advection_diffusion_1d.py
index 20f896f..f3130bb 100644
--- a/ormatex_py/progression/advection_diffusion_1d.py
+++ b/ormatex_py/progression/advection_diffusion_1d.py
@@ -121,7 +121,7 @@ def rhs_supg(v, w):
     r = src_f(**w) * v
     tau = tau_upwind_f(w)
     stab_f =  dot(tau * vel_f(**w), grad(v)) * src_f(**w)
-    return r - stab_f
+    return r + stab_f
 
 @fem.BilinearForm
 def mass(u, v, _):
-- 
2.43.0


From 371ed5d79af6f564bc875baef46bb6e5871910c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 12/15] fix: nodal basis must be re-evaluated at new points

The cache was keyed on the number of points only: evaluating at other points of
the same number, e.g. a second facet basis, returned the values at the old ones.
---
 ormatex_py/progression/element_line_pp_nodal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/progression/element_line_pp_nodal.py b/ormatex_py/progression/element_line_pp_nodal.py
index 543099c..dd9d04f 100644
--- a/ormatex_py/progression/element_line_pp_nodal.py
+++ b/ormatex_py/progression/element_line_pp_nodal.py
@@ -49,6 +49,7 @@ class ElementLinePp_nodal(ElementH1):
         self.dofnames = ['u'] + (p - 1) * ['u']
         self.quad = GLL_quad()(p + 1)
         self.doflocs = self.quad[0].T
+        self.X = None
         self.P = np.zeros((0, 0))
         self.dP = np.zeros((0, 0, 1))
         self.p = p
@@ -68,7 +69,8 @@ class ElementLinePp_nodal(ElementH1):
 
     def lbasis(self, X, i):
 
-        if self.P.shape[1] != X.shape[1]:
+        if self.X is None or not np.array_equal(self.X, X):
+            self.X = np.array(X)
             self.P, self.dP = self._reval_legendre(X[0, :], self.p)
 
         return self.P[i], self.dP[i]
-- 
2.43.0


From d90d87e5765a2a1f9df45009897e78093318783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:40 +0000
Subject: [PATCH 13/15] fix: integrate_diffrax must take exactly nsteps steps
 whatever the rounding of t0 + dt*nsteps

---
 ormatex_py/integrate_wrapper.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ormatex_py/integrate_wrapper.py b/ormatex_py/integrate_wrapper.py
index 6eaf5af..571981f 100644
--- a/ormatex_py/integrate_wrapper.py
+++ b/ormatex_py/integrate_wrapper.py
@@ -150,12 +150,14 @@ def integrate_diffrax(ode_sys, y0, t0, dt, nsteps, method="implicit_euler", **kw
         solver = method_dict[method](root_finder=root_finder)
     except:
         solver = method_dict[method]()
-    tf = t0 + dt * nsteps
-    step_ctrl = diffrax.ConstantStepSize()
+    # prescribe the step points: ConstantStepSize derives the number of steps from
+    # (t1 - t0) / dt and takes one too many where that rounds up
+    ts = jnp.asarray(t0 + dt * np.arange(nsteps + 1.0))
+    step_ctrl = diffrax.StepTo(ts=ts)
     res = diffrax.diffeqsolve(
             diffrax_ode_sys,
             solver,
-            t0, tf, dt, y0,
+            ts[0], ts[-1], None, y0,
             saveat=diffrax.SaveAt(steps=True),
             stepsize_controller=step_ctrl,
             max_steps=nsteps,
-- 
2.43.0


From f697b405f3ac4634c540fb130d5b6b4ae86728ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:51 +0000
Subject: [PATCH 14/15] fix: imaginary Leja interpolation: the error estimate
 takes the magnitude of the coefficient

---
 ormatex_py/matexp_leja.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index 6b82fe0..8d40dd3 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -274,7 +274,7 @@ def complex_conj_imag_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: fl
         # unpack args
         i, rm, pm, qm, _ = args
         # compute error estimate
-        err_r = jnp.real(coeffs[i-1])*jnp.linalg.norm(rm)
+        err_r = jnp.abs(jnp.real(coeffs[i-1]))*jnp.linalg.norm(rm)
         # compute new term in the polynomial approx
         qm = (dt*a_lo.matvec(rm) - shift*rm)/scale
         # div diff coeffs[i] even is real
-- 
2.43.0


From 6ca47c26451dfe63b369923dc0b98d75f54c22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:51 +0000
Subject: [PATCH 15/15] fix: imaginary Leja interpolation: start the error
 estimate in proportion to the vector

---
 ormatex_py/matexp_leja.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index 8d40dd3..ccaf7e2 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -292,7 +292,7 @@ def complex_conj_imag_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: fl
         iter_check = (i < n_leja)
         return (tol_check) & (iter_check) # | (i < 3)
     i, rm, pm, _qm, err = lax.while_loop(
-            cond_leja_poly, body_leja_poly, (2, rm, pm, qm, 1.0e2))
+            cond_leja_poly, body_leja_poly, (2, rm, pm, qm, 1.0e2*beta))
     converged = (i < n_leja) & (err < beta*1.0e3)
     # expmv, n_iters, converged
     return pm, i, converged
-- 
2.43.0

