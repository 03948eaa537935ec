#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
QP='include/smooth/feedback/qp_solver.hpp'
QPD='include/smooth/feedback/qp.hpp'
SP='include/smooth/feedback/utils/sparse.hpp'
TM='include/smooth/feedback/time.hpp'
IP='include/smooth/feedback/compat/ipopt.hpp'
NL='include/smooth/feedback/nlp.hpp'
ME='include/smooth/feedback/collocation/mesh.hpp'
MF='include/smooth/feedback/collocation/mesh_function.hpp'
PI='include/smooth/feedback/pid.hpp'
EK='include/smooth/feedback/ekf.hpp'
AF='include/smooth/feedback/asif_func.hpp'
AS='include/smooth/feedback/asif.hpp'
MP='include/smooth/feedback/mpc.hpp'
OQ='include/smooth/feedback/ocp_to_qp.hpp'
ON='include/smooth/feedback/ocp_to_nlp.hpp'
OC='include/smooth/feedback/ocp.hpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=None
    P.append(d)

p('C01','An Optimal QP verdict is earned by the returned solution',
 "Whenever the QP solver returns Optimal or PolishFailed, the returned primal x and dual y of the original (unscaled) problem satisfy the KKT conditions to the requested tolerances: there is a z with l<=z<=u and y in the normal cone of [l,u] at z such that |Ax-z|_inf <= eps_abs + eps_rel*max(|Ax|_inf,|z|_inf) and |Px+q+A'y|_inf <= eps_abs + eps_rel*max(|Px|_inf,|q|_inf,|A'y|_inf). "
 "This holds with and without scaling, polishing, warmstart and for dense and sparse problems. The returned objective is 1/2 x'Px+q'x of the returned x.",
 ['inputs','configurations','histories'],
 "all problems (any sizes, finite data, infinite bounds allowed), all parameter values, any warmstart, any previous use of the solver object",
 "the tests compare a handful of tiny problems with a known answer; the verdict has to be sound for every problem, tolerance and iteration at which the loop can stop",
 [QP,QPD],[('stopping criterion on unscaled iterates','QPSolver::check_stopping'),('unscaling of iterates and of the result','QPSolver::solve'),('re-validation of the polished solution','QPSolver::solve')],
 ['QPSolver::solve return value','QPSolver::sol()'])

p('C02','QP infeasibility verdicts carry a certificate',
 "PrimalInfeasible is returned only if some constraint admits no value (l=+inf, u=-inf or l>u) or the solver holds a nonzero dual direction d with |A'd|_inf below eps_primal_inf*|d|_inf and support value sum(u d+ + l d-) strictly below -eps_primal_inf*|d|_inf, where infinite bounds count as +infinity when d points at them. DualInfeasible is returned only if the solver holds a nonzero direction d with |Pd|_inf within and q'd strictly below minus eps_dual_inf*|d|_inf whose image Ad stays (within the tolerance) in the recession cone of the bounds. "
 "A problem with a constraint that admits no value is reported PrimalInfeasible, without iterating (or Unknown if the linear system cannot be factorized).",
 ['inputs','configurations'],
 "all problems and parameters, every combination of finite and infinite bounds, every iterate sequence",
 "tests contain three hand-made infeasible problems; a sign or a missing bound class in the certificate only shows on particular geometry",
 [QP],[('certificates','QPSolver::check_stopping'),('trivially empty bounds','QPSolver::solve')],['QPSolution::code'])

p('C03','A QP solver object carries no history between problems',
 "The result of solve (code, iterations, primal, dual, objective) is a function of the problem, the parameters and the warmstart argument only: it does not depend on problems solved or analyzed earlier with the same object, on the object having been copied, moved or assigned, or on memory contents before analyze. "
 "analyze followed by solve on a problem of new size or sparsity behaves like a fresh solver, and solve may be warmstarted from the solver's own last solution.",
 ['histories','inputs','configurations'],
 "every sequence of construct/analyze/solve/copy/assign operations in which solve is given a problem with the structure last analyzed",
 "the tests reuse a solver once on one problem; stale scaling, stale matrix entries or a stale factorization need particular histories",
 [QP],[('re-initialization of work state','QPSolver::analyze, QPSolver::solve, QPSolver::scale'),('factorization not shared between copies','detail::LDLTWrapper')],
 ['QPSolver::solve return value'],
 [('work vectors, scaling, system matrix, factorization','scratch state reused between solves','QPSolver private members')])

p('C04','The QP iteration is the documented ADMM on the scaled problem',
 "Every iteration solves the linear system [[P_s + sigma I, A_s'],[A_s, -diag(1/rho)]] with right-hand side (sigma x - q_s, z - y/rho), then updates x, z and y with relaxation alpha, with z projected on the scaled bounds; P_s=c Sx P Sx, q_s=c Sx q, A_s=Sy A Sx, and rho is 1e3*rho_bar for equality, 1e-6 for unbounded and rho_bar for other constraints. "
 "Dense and sparse problem formats with the same data build the same linear system, and the iterates start from zero or from the scaled warmstart.",
 ['inputs','configurations'],
 "all problems (all sizes and sparsity patterns, explicit zeros, infinite bounds), all parameters",
 "a wrong block, a missed entry or a wrong step still converges on the small test problems; the equations must hold for every pattern and size",
 [QP,SP],[('system matrix fill','QPSolver::solve'),('iteration','QPSolver::solve'),('identity block','block_add_identity')],['QPSolver::solve return value for max_iter=k'])

p('C05','Only the upper triangle of the QP cost matrix matters',
 "Entries of the cost matrix strictly below the diagonal never influence the result of solving a QP: status, iterations, primal, dual and objective are those of the symmetric matrix given by the upper triangle, for dense and sparse problems, with and without scaling and polishing.",
 ['inputs','configurations'],
 "all problems, all contents and sparsity of the strictly lower triangle, all parameters",
 "all tests use symmetric cost matrices",
 [QP,QPD,SP],[('upper-triangular access','QPSolver::solve, scale, check_stopping, objective; detail::polish_qp')],['QPSolver::solve return value'])

p('C06','QP budgets, iteration counts and status codes are truthful',
 "The solver never performs more iterations than max_iter, reports exactly the number of iterations performed, returns MaxIterations only if a limit was set and reached, returns MaxTime only if a time limit was set and had elapsed at a check, and otherwise returns only when a stopping criterion was met (or the problem was rejected before iterating). "
 "The stopping criterion is evaluated once in every window of stop_check_iter iterations, including for stop_check_iter=1, and the first evaluation that succeeds ends the iteration. "
 "Verbose output does not influence results.",
 ['inputs','configurations'],
 "all problems, all values of max_iter, max_time, stop_check_iter >= 1, verbose and polish",
 "tests run with default budgets; off-by-one and precedence errors need particular combinations of limits",
 [QP],[('main loop guard and status selection','QPSolver::solve')],['QPSolution::code','QPSolution::iter'])

p('C07','Polishing only ever improves an Optimal solution',
 "Polishing solves the KKT system of the constraints with a significantly nonzero dual variable and finite bound on the matching side, leaves the dual of every other constraint untouched, and is applied only after Optimal. "
 "If the polished system cannot be factorized, or the polished point is not finite or does not meet the stopping criterion, the unpolished solution is returned with PolishFailed; without polishing the result is the plain iterate.",
 ['inputs','configurations'],
 "all problems, all active sets (including empty, complete and equality constraints), all polish_iter and delta",
 "tests only polish well-posed problems; index mix-ups between active sets and restore on failure need degenerate problems",
 [QP],[('active set, reduced system, refinement','detail::polish_qp'),('acceptance and restore','QPSolver::solve')],['QPSolver::solve return value'])

p('C08','QP code never leaves the bounds of its matrices',
 "For every problem size including no constraints, a single variable and empty cost or constraint matrices, every element, block and pointer access made while analyzing, scaling, solving and polishing is inside its matrix, all operand shapes agree, every value read has been initialised, and no division by a scaling factor or step length can be a division by zero.",
 ['inputs','configurations','histories'],
 "all sizes n>=1, m>=0, all sparsity patterns, all parameters, release builds in which Eigen assertions are off",
 "tests cover five fixed sizes, none of them degenerate, and assertions vanish in release builds",
 [QP,SP],[('allocation and shapes','QPSolver::analyze'),('positive scaling','QPSolver::scale'),('index arithmetic','QPSolver::solve, check_stopping, detail::polish_qp')])

p('C09','Sparse block operations have exactly their documented effect',
 "Adding or writing a block (or an identity block) into a sparse matrix changes exactly the addressed entries: dest(r0+r,c0+c) becomes dest(r0+r,c0+c)+s*B(r,c), respectively s*B(r,c), for every stored entry of the block, for entries on or above the diagonal of dest only if restricted to the upper triangle, and every other coefficient keeps its value. "
 "This holds for every storage order of destination and source, dense and sparse sources, every offset, and scale.",
 ['inputs','configurations'],
 "all matrices, patterns, offsets and scales such that the block fits inside the destination",
 "one test adds one 2x2 block; frame (nothing else changes), storage orders, offsets and the triangle condition are unbounded families",
 [SP],[('loops over stored entries','block_add, block_write, block_add_identity, block_write_identity')])

p('C10','Zeroing and zero-counting sparse matrices are exact',
 "Zeroing a sparse matrix or a block of columns (rows) of one sets every stored coefficient of that expression, and nothing outside it, to zero and keeps the sparsity pattern, compressed or not. "
 "Counting explicit zeros returns the number of stored coefficients equal to zero, and marking returns a dense matrix of the same size with 9 at stored zeros, 1 at stored nonzeros and 0 elsewhere.",
 ['inputs','configurations'],
 "all sparse matrices and inner blocks of them, compressed and uncompressed, both storage orders, including empty ones",
 "no test calls these functions",
 [SP],[('bulk zeroing','set_zero'),('scan of stored entries','count_explicit_zeros, mark_explicit_zeros')])

p('C11','The Hessian chain rule is assembled correctly',
 "The composed-Hessian helper adds to out, at rows r0.. and columns c0+o*Nx.., the matrix Jg'*Hf_o*Jg + sum_j Jf(o,j)*Hg_j for every output o, where Hf_o and Hg_j are the o-th and j-th column blocks, and changes no other coefficient of out.",
 ['inputs','configurations'],
 "all dimensions No, Ny, Nx, dense or sparse Jf, any offsets, any previous contents of out",
 "no test in this build calls it, and a wrong column block is invisible when dimensions are equal to one",
 [SP],[('block accumulation','d2r_fog')])

p('C12','Time arithmetic is consistent for every supported clock type',
 "For floating point, duration and time_point types, adding s seconds moves time by s seconds (to the resolution of the type, rounding toward zero), subtracting two times gives their difference in seconds with the right sign, and minus(plus(t,s),t)=s up to that resolution, for every period ratio and integer or floating representation.",
 ['inputs','configurations'],
 "all times and increments whose exact result is representable, all representations and tick periods",
 "the only test checks that the concept is satisfied at compile time",
 [TM],[('conversions','time_trait<T>::plus, time_trait<T>::minus')])

p('C13','The Ipopt interface passes the problem on faithfully',
 "For every nonlinear program, the values, gradient, constraint Jacobian (positions and values) and bounds handed to Ipopt are those of the program: the k-th value belongs to the k-th (row, column) pair, infinite bounds become values Ipopt treats as infinite and finite bounds are unchanged. "
 "The Hessian entries are the lower triangle (transposed upper triangle) of sigma*d2f + d2(lambda'g), with as many entries as announced, for every sigma and lambda and every order of calls.",
 ['inputs','histories','configurations'],
 "all programs satisfying the NLP concept (any storage order of derivatives), all points, multipliers and call orders",
 "the tests that exercise Ipopt cannot be built here; swapped indices or a stale Hessian only show on nonsymmetric patterns or in particular call orders",
 [IP,NL],[('TNLP callbacks','IpoptNLP::get_nlp_info, get_bounds_info, eval_*')],['arguments written by the callbacks'])

p('C14','Ipopt outcomes are reported truthfully',
 "The returned solution carries the point, multipliers, objective and iteration count Ipopt finished with, and its status is the documented translation of Ipopt's return code, Unknown for everything else, also if Ipopt stops before producing a point. "
 "Warmstart data is handed to Ipopt as the starting point and multipliers, and without warmstart the starting point is zero.",
 ['inputs','histories','configurations'],
 "all Ipopt return codes, all solutions, with and without warmstart",
 "tests only see successful solves",
 [IP,NL],[('status translation','IpoptNLP::finalize_solution'),('initial point','IpoptNLP::get_starting_point, solve_nlp_ipopt')])

p('C15','Mesh refinement always leaves a valid partition of [0,1]',
 "After any sequence of constructions, refinements and degree changes the mesh intervals start at 0, have strictly increasing start points below 1, and every degree lies in [Kmin, Kmax+1]. "
 "Refining an interval to a target above Kmax splits exactly that interval into equal parts and leaves the others as they were, a target between the current degree and Kmax sets the degree, and a lower target changes nothing.",
 ['histories','inputs','configurations'],
 "all sequences of operations with arguments in the documented ranges, all Kmin <= Kmax",
 "tests (not buildable here) try a few refinements; the invariant must survive every sequence",
 [ME],[('splitting and degree changes','Mesh::refine_ph, refine_errors, increase_degrees, decrease_degrees, set_N_colloc_ival')])

p('C16','Mesh nodes, weights, lookup and evaluation agree',
 "Nodes of an interval are the Legendre-Gauss-Radau nodes mapped affinely to the interval plus its right end, weights are the quadrature weights scaled by half the interval length, and the nodes of all intervals concatenated without duplicates form N+1 increasing points ending at 1. "
 "Lookup returns the interval that contains t for every t in [0,1], and evaluation interpolates with the values belonging to that interval.",
 ['inputs','configurations'],
 "all meshes and all t",
 "tests (not buildable here) sample a few meshes",
 [ME],[('affine maps','Mesh::interval_nodes, interval_weights, all_nodes, all_weights'),('lookup','Mesh::interval_find, eval')])

p('C17','The PID controller computes its control law with bounded integral',
 "The output is a_des + kp*(g_des - x) + kd*(v_des - v) + ki*I with elementwise gains and desired values evaluated at t, where I accumulates (t - t_last)*(g_des - x) only if time strictly increased since the previous call and is always limited elementwise to the windup limit. "
 "The first call does not integrate, a call with an earlier or equal time does not change the integral, and resetting the integral sets it to zero.",
 ['histories','inputs','configurations'],
 "all call sequences, times, states, gains, desired trajectories and windup limits >= 0",
 "tests (not buildable here) simulate one converging loop",
 [PI],[('integration and clamping','PID::operator()')])

p('C18','EKF predict and update implement the documented equations',
 "Prediction steps the covariance and then the state through [0,tau] with steps of at most dt whose lengths sum to exactly tau, using A*P+P*A'+Q with A = Df - ad_f at the estimate; update uses gain P H' (H P H' + R)^-1, moves the estimate by K*(y - h(x)) and sets the covariance to (I-KH)P. "
 "The covariance stays symmetric, and only the upper triangles of Q and R influence the result.",
 ['inputs','histories'],
 "all states, covariances, dynamics, measurements and step sizes tau>=0, dt>0",
 "tests (not buildable here) compare single steps",
 [EK],[('time stepping','EKF::predict'),('Bayesian update','EKF::update')])

p('C19','The active-set-invariance QP encodes the documented constraints',
 "Row block k of the QP states the barrier condition at look-ahead time k*T/K along the backup trajectory with the sensitivity transported to that time, every barrier row is relaxed by the slack variable, input bounds are expressed relative to the desired input, the slack is nonnegative, and the cost is the weighted input deviation plus the relaxation cost. "
 "Between constraints the integration steps are at most dt and sum to exactly T/K.",
 ['inputs','configurations'],
 "all problems, K, dt, alpha, relaxation costs and barrier dimensions",
 "tests (not buildable here) solve one or two filters",
 [AF,AS],[('constraint rows and integration','asif_to_qp_update'),('allocation','asif_to_qp_allocate')])

p('C20','MPC tracks with the weights, horizon and problem it was given',
 "Each call solves the QP of the current time, state, desired trajectories and weights: the initial state constraint is the given state, costs weigh state, input and final state errors by Q, R and Qtf respectively, also after the weights were changed, and the returned input and trajectories are read from the matching part of the solution. "
 "Only solutions that carry information are used to warmstart the next call, and a reset forgets them.",
 ['histories','inputs','configurations'],
 "all sequences of setter calls and control calls, all sizes and horizons",
 "tests (not buildable here) check one closed loop",
 [MP],[('linearization functors','detail::MPCObj, MPCIntegrand, MPCDyn, MPCCR, MPCCE'),('solve and extraction','MPC::operator()')])

p('C21','The nonlinear program is a faithful transcription of the control problem',
 "The program obtained from an optimal control problem and a mesh has the documented variable and constraint layout and bounds, its objective and constraints are the collocated cost, dynamics, integral, running and end constraints, and the Jacobians and upper-triangular Hessians it reports are the derivatives of those functions.",
 ['inputs','configurations'],
 "all problems, meshes and evaluation points",
 "tests (not buildable here) compare a few random points numerically",
 [ON,MF,OC],[('transcription','ocp_to_nlp')])

p('C22','The quadratic program is the linearization of the control problem',
 "Transcribing an optimal control problem around a trajectory yields the QP with documented layout whose rows are the linearized collocation, running and end constraints with correctly shifted bounds and whose cost is the quadratic expansion of the cost, and an update in place gives the same QP as a fresh transcription.",
 ['inputs','histories','configurations'],
 "all problems, meshes, linearization trajectories and update sequences",
 "tests (not buildable here) solve two problems",
 [OQ],[('allocation and updates','ocp_to_qp_allocate, ocp_to_qp_update*')])

p('C23','Mesh functions evaluate and differentiate every collocation point',
 "Evaluating or integrating a function over a mesh uses the node, state and input belonging to each collocation point, the matching quadrature weight and interval scaling, and the first and second derivatives with respect to times, states and inputs are placed at the rows and columns of exactly those variables.",
 ['inputs','configurations'],
 "all meshes, functions and trajectories",
 "tests (not buildable here) compare a few cases numerically",
 [MF],[('evaluation and assembly','mesh_eval, mesh_integrate, mesh_dyn')])

p('C24','Control-problem and program solutions convert back and forth',
 "Converting a nonlinear-program solution to a control-problem solution and back returns the same variables and multipliers, and evaluating the converted solution at a collocation time returns the variables stored for that time.",
 ['inputs','configurations'],
 "all solutions, meshes and problem sizes",
 "tests (not buildable here) try one conversion",
 [ON,OC],[('conversions','nlpsol_to_ocpsol, ocpsol_to_nlpsol')])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
