#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the long text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Expressions evaluate to the function they were written as",
 "Whatever mix of operators, operand forms (owned or borrowed node, number on either side) and functions an expression is built with, evaluating it gives the value of the mathematical function that was written, up to rounding, and building it never fails unless it divides by the constant zero. "
 "Variables without a value make every expression that depends on them NaN rather than some number, and values given for other variables are ignored.",
 ["inputs", "programs"], "every expression program (shared sub-expressions, constants of any size, constants that cancel, same-named variables) and every assignment of values at which the function is finite and well conditioned",
 "The tests evaluate a few dozen fixed expressions; the simplification rules (flattening, folding, distribution) interact, and each of the operand-form overloads is separate code.",
 ["src/model/node.rs", "src/model/node_base.rs", "src/model/node_func.rs", "src/model/function/add.rs", "src/model/function/mul.rs", "src/model/function/div.rs", "src/model/function/sin.rs", "src/model/function/cos.rs"],
 [("operator overloads with simplification", "src/model/node.rs"), ("NodeBase::evaluate", "src/model/node_base.rs")],
 observe=["NodeBase::evaluate"])
prop("C02", "First derivatives are the true partial derivatives",
 "For every expression and every set of variables, the derivative expressions obtained for those variables evaluate, at every point where the function is differentiable, to its true partial derivatives, also when sub-expressions are shared or an argument repeats. "
 "Exactly the requested variables are reported, a variable the expression does not involve has derivative zero, and asking for one variable or for several gives the same function.",
 ["inputs", "programs"], "every expression program, every subset of variables (with repetitions) and every point",
 "Tests compare the printed form of a handful of derivatives; sharing patterns and argument coincidences (f*f, f/f, f+f, sin f next to cos f) are combinatorial.",
 ["src/model/node_diff.rs", "src/model/function/add.rs", "src/model/function/mul.rs", "src/model/function/div.rs", "src/model/function/sin.rs", "src/model/function/cos.rs"],
 [("chain rule over all simple paths", "src/model/node_diff.rs"), ("NodeBase::partial", "src/model/function/*.rs")],
 observe=["NodeDiff::derivative", "NodeDiff::derivatives"])
prop("C03", "Gradient and Hessian components describe the whole function",
 "The standard components of an expression contain the expression itself, a gradient entry for each of its variables equal to the true partial derivative, and Hessian entries that together with symmetry give the true matrix of second derivatives. "
 "No variable appears twice in the gradient, no unordered pair of variables appears twice in the Hessian, and every pair that is left out has second derivative zero everywhere.",
 ["inputs", "programs"], "every expression program over any number of variables, and every point",
 "Two fixed expressions are tested; map iteration order decides which of the two orders of a pair is kept, so one run of a test sees one order only.",
 ["src/model/node_std.rs", "src/model/node_diff.rs"],
 [("NodeStd::std_components", "src/model/node_std.rs")], observe=["NodeStdComp.phi", "NodeStdComp.gphi", "NodeStdComp.hphi"])
prop("C04", "Affine classification is sound and its coefficients are right",
 "An expression that is reported as affine equals, at every point, the reported linear combination of its variables plus the reported constant; an expression built only from linear operations is always reported as affine. "
 "Whatever the classification, the reported variables include every variable the expression depends on and none that was not used to build it.",
 ["inputs", "programs"], "every expression program, linear or not, with shared and cancelling terms, and every point",
 "The tests look at about twenty expressions; soundness of the classification is what lets a model be sent to a linear solver, and only has to fail for one combination.",
 ["src/model/node_std.rs", "src/model/function/add.rs", "src/model/function/mul.rs", "src/model/function/div.rs", "src/model/function/sin.rs", "src/model/function/cos.rs"],
 [("NodeStd::std_properties", "src/model/function/*.rs")], observe=["NodeStdProp"])
prop("C05", "Printed expressions, constraints and models mean what they are",
 "Read back with the usual rules of arithmetic (products and quotients from left to right before sums), the printed form of an expression denotes the same function as the expression. "
 "The printed form of a constraint shows both sides and the right relation, and that of a model shows the sense, the objective and all constraints in order, with their labels.",
 ["inputs", "programs"], "every expression, constraint and model, including nested quotients, negative and very small or large constants",
 "Tests compare a few strings; where parentheses are needed depends on every pairing of an operator with its left and right operand.",
 ["src/model/function/add.rs", "src/model/function/mul.rs", "src/model/function/div.rs", "src/model/constant.rs", "src/model/constraint.rs", "src/model/model.rs"],
 [("Display implementations with parenthesis rules", "src/model/function/*.rs")], observe=["Display for Node", "Display for Constraint", "Display for Model"])
prop("C06", "Variables and constraints are identified by identity, not by name",
 "Two separately created variables (or constraints, or constants and functions) are always different, as map keys and in comparisons, even with the same name (or the same content), while every clone is the same as its original. "
 "Using a node in further expressions, derivatives or constraints never changes it or what it evaluates to.",
 ["inputs", "histories"], "every population of variables and constraints with coinciding names, labels and contents, and every history of operations on them",
 "The tests check three nodes with different names; confusing same-named variables only shows in models that reuse names.",
 ["src/model/node.rs", "src/model/constraint.rs", "src/model/variable.rs", "src/model/model_std.rs"],
 [("PartialEq, Hash and Clone on the reference-counted inner value", "src/model/node.rs, src/model/constraint.rs")], observe=["Eq/Hash of Node and Constraint", "NodeBase::evaluate"])
prop("C07", "Constraints compare what was written and measure its violation",
 "Each way of writing a comparison (node or number on either side, tagged or not) gives a constraint with that left-hand side, relation, right-hand side and label. "
 "Its violation at a point is exactly the amount by which the relation fails there: zero if and only if it holds, and never zero if it cannot be evaluated.",
 ["inputs"], "every pair of sides, relation, operand form and label, and every assignment of values, complete or not",
 "Five evaluations at one point are tested, and several comparison forms only through their printed form.",
 ["src/model/node_cmp.rs", "src/model/constraint.rs"],
 [("NodeCmp implementations", "src/model/node_cmp.rs"), ("Constraint::violation", "src/model/constraint.rs")], observe=["Constraint accessors", "Constraint::violation"])
prop("C08", "The standard form is equivalent to the model",
 "A point satisfies all constraints of a model exactly when some choice of values for the added slack variables makes it feasible for the standard problem (variables without explicit bounds and the free side of slack variables being limited to the default range of +-1e8). "
 "The standard objective is the model's objective, negated when maximizing, up to an additive constant, integer variables stay integer and no other variable becomes integer, and the standard problem starts from the model's initial values (zero where none is given).",
 ["inputs", "programs"], "every model: any number and mix of linear and nonlinear equalities and inequalities, bounds of either direction and of any tightness, either sense, initial values, integer and same-named variables",
 "The tests fix five models; signs, scaling, slack directions, bound tightening and index maps each have cases no fixed model covers together.",
 ["src/model/model_std.rs", "src/model/constraint_std.rs", "src/model/node_std.rs"],
 [("ModelStd::std_problem", "src/model/model_std.rs"), ("ConstraintStd::std_components", "src/model/constraint_std.rs")],
 state=[("var2index", "position of each model variable in the standard problem", "src/model/model_std.rs")], observe=["ModelStdProb"])
prop("C09", "Derivatives given to solvers are those of the standard problem",
 "After evaluating a nonlinear standard problem at a point, its objective gradient and Hessian, constraint values, Jacobian and constraint Hessians are the true ones of the model's objective and constraints at that point, in the positions of their variables and rows. "
 "All Hessians are given by their lower triangle, and the combined Hessian equals the given combination of the constraint Hessians.",
 ["inputs", "programs"], "every nonlinear model, every point and every vector of multipliers",
 "One problem is evaluated at one point in the tests; a wrong second derivative or position only slows a solver down or makes it fail on other models.",
 ["src/model/model_std.rs", "src/model/constraint_std.rs", "src/model/node_std.rs", "src/problem/minlp.rs", "src/problem/nlp.rs"],
 [("evaluation closure of the standard problem", "src/model/model_std.rs"), ("combine_h", "src/problem/minlp.rs")], observe=["gphi", "hphi", "f", "j", "h", "hcomb"])
prop("C10", "Models become the problem type their contents call for",
 "A model whose objective and constraints are built from linear operations becomes a linear problem, mixed-integer exactly if it involves an integer variable. "
 "A model that has a nonlinear objective or constraint never becomes a linear problem, and one with an integer variable never becomes a continuous one.",
 ["inputs", "programs"], "every model, including nonlinearity or integer variables in a single constraint or only in the objective",
 "Four fixed models, one per type, are tested.",
 ["src/model/model_std.rs"], [("selection of the problem type", "src/model/model_std.rs")], observe=["ModelStdProb.prob"])
prop("C11", "Each constraint's multiplier position is the one that governs it",
 "Every constraint of a model that is not implied by a tighter bound is attached to at least one position of the standard problem (equality row, or lower or upper limit), each position is attached to at most one constraint, and the row or limit at that position is the one this constraint imposes. "
 "Where several constraints bound the same variable, the limit is the tightest of them and is attached to a constraint that imposes it.",
 ["inputs", "programs"], "every model, with many, repeated, equal and conflicting bounds on the same variable and mixed rows",
 "Tests have at most one bound per variable and side.",
 ["src/model/model_std.rs", "src/model/constraint_std.rs"],
 [("aindex2constr, jindex2constr, uindex2constr, lindex2constr", "src/model/model_std.rs")], observe=["ModelStdProb maps", "l", "u", "b"])
prop("C12", "Solving a model hands every result to its owner",
 "Whatever solution vectors a solver returns, the model's final value of each variable is the one computed for that variable, and the final dual of each constraint is the multiplier of the row (for an equality) or of the limit of the variable or slack variable (for an inequality) that this constraint became. "
 "The status is the one the solver returned.",
 ["inputs", "programs"], "every model and every solver implementation (the solver interface is public), every status and every solution vector",
 "The tests only use real solvers on five models, whose duals are mostly zero.",
 ["src/model/model.rs", "src/model/model_std.rs"],
 [("Model::solve", "src/model/model.rs")], observe=["Model::final_primals", "Model::final_duals", "Model::solver_status"])
prop("C13", "A model's state depends only on its current contents and last solve",
 "After any sequence of additions, objective changes, new initial values and solves, the model contains exactly what was added, in order, and the latest objective and initial values, and solving it gives the solver the same problem as a freshly built model would. "
 "The reported status, primal and dual values are those of the last solve only; after a solve that returned an error there are none.",
 ["histories"], "every sequence of model operations, with solves that succeed, fail or return an error in any order",
 "One test solves the same model twice.",
 ["src/model/model.rs"], [("reset at the start of Model::solve", "src/model/model.rs")],
 state=[("solver_status, final_primals, final_duals", "results of the last solve", "src/model/model.rs")], observe=["Model accessors"])
prop("C14", "Problem evaluation does not depend on what was evaluated before",
 "Evaluating a problem at a point gives the same function and derivative values whatever points and multipliers it was evaluated with before, and the combined Hessian, when formed, is the combination of the Hessians of the last evaluated point with the given multipliers, with unchanged sparsity pattern. "
 "The views of a problem as more general types describe the same problem: same data, objective, starting point and integrality.",
 ["histories", "inputs"], "every problem of each of the four types, built by hand or from a model, and every history of evaluations and combinations",
 "Tests evaluate one hand-built problem once.",
 ["src/problem/minlp.rs", "src/problem/nlp.rs", "src/problem/milp.rs", "src/problem/lp.rs", "src/model/model_std.rs"],
 [("ProblemMinlp::evaluate and combine_h", "src/problem/minlp.rs"), ("as_mut_* casts", "src/problem/*.rs")],
 state=[("phi, gphi, hphi, f, j, h, hcomb", "values of the last evaluation", "src/problem/minlp.rs")], observe=["problem accessors"])
prop("C15", "Sparse matrix conversions preserve the matrix",
 "Converting a coordinate matrix to compressed rows keeps every entry in its row, and summing duplicates leaves one entry per position with the sum of its entries, so that all forms represent the same matrix. "
 "Multiplying by a vector gives the product with that matrix, and iterating visits every entry once, in order.",
 ["inputs"], "every shape (with empty rows, columns or matrices), entry order, number of duplicates and vector",
 "A single 3 by 5 matrix is tested.",
 ["src/matrix/coo.rs", "src/matrix/csr.rs"],
 [("CooMat::to_csr, Mul, iter", "src/matrix/coo.rs"), ("CsrMat::sum_duplicates", "src/matrix/csr.rs")], observe=["CsrMat accessors", "product"])
prop("C16", "Written LP files state the problem that is solved",
 "Read by the rules of the LP format, a written problem file states a minimization with exactly the problem's objective, equality constraints, variable limits and integer variables, with numbers correct to at least ten significant digits, and names each variable and row by its position, each variable at most once per row.",
 ["inputs"], "every linear or mixed-integer problem: any magnitude and sign of coefficients, unit, zero and duplicate entries, empty rows and objectives, infinite limits",
 "One problem is written in the tests and the file is not read back.",
 ["src/problem/milp.rs"], [("write_to_lp_file", "src/problem/milp.rs")], observe=["the written file"])
prop("C17", "Solution files are read exactly",
 "From any well-formed solution file, every listed value and multiplier is stored for exactly the variable or row it names, a reduced cost is stored as a lower-limit multiplier if positive and as an upper-limit multiplier if negative, and everything not listed stays zero. "
 "The status is solved only for files that say optimal, infeasible only for files that say infeasible, and an error otherwise.",
 ["inputs"], "every solution file in the formats written by cbc and clp, with any subset and order of entries, number formats and status line",
 "One stored file per solver is tested, with few rows.",
 ["src/solver/cbc_cmd.rs"], [("SolverCbcCmd::read_sol_file", "src/solver/cbc_cmd.rs")], observe=["status and solution returned"])
prop("C18", "Damaged solution files never crash or pass as solutions",
 "Reading any file content as a solution file ends with a result or an error, never a crash, and an error is reported when an entry line is incomplete, not numeric, or names an unknown variable or row. "
 "A file that does not start by saying that the problem was solved is never reported as solved.",
 ["inputs", "fault_sequences"], "every byte sequence: random bytes, mutations and line-wise damage of real solution files, and missing files",
 "The tests only read intact files.",
 ["src/solver/cbc_cmd.rs"], [("SolverCbcCmd::read_sol_file", "src/solver/cbc_cmd.rs")], observe=["result of reading"])
prop("C19", "Linear problems solved with Cbc come with a valid optimality certificate",
 "When solving a linear problem with Cbc reports solved, the point is feasible and the multipliers prove that it is optimal: stationarity, signs and complementarity hold in the problem's terms, and equally in terms of the model's constraints and their duals. "
 "A feasible bounded problem is reported as solved and an infeasible one as infeasible (problems with neither rows nor objective aside, which the command does not accept).",
 ["inputs"], "every well-scaled linear problem or model, given directly or as a model, with any mix of rows, limits and sense",
 "Five fixed linear models are tested, whose duals are mostly zero.",
 ["src/solver/cbc_cmd.rs", "src/problem/milp.rs", "src/model/model.rs", "src/model/model_std.rs"],
 [("SolverCbcCmd::solve", "src/solver/cbc_cmd.rs")], observe=["status, x, lam, mu, pi", "Model::final_primals, final_duals"])
prop("C20", "Mixed-integer linear problems solved with Cbc are solved to optimality",
 "When solving a mixed-integer linear problem with Cbc reports solved, the point is feasible and integral where required, and no other integer point has a better objective. "
 "A problem with an integer point is reported as solved, and one without any as infeasible.",
 ["inputs"], "every well-scaled bounded mixed-integer linear problem, given directly or as a model, including those whose relaxation is feasible or fractional",
 "Two fixed models are tested.",
 ["src/solver/cbc_cmd.rs", "src/problem/milp.rs", "src/model/model.rs", "src/model/model_std.rs"],
 [("SolverCbcCmd::solve", "src/solver/cbc_cmd.rs"), ("General section of the LP file", "src/problem/milp.rs")], observe=["status, x", "Model::final_primals"])
prop("C21", "Linear problems solved with Clp come with a valid optimality certificate",
 "When solving a linear problem with Clp reports solved, the point is feasible and the multipliers prove that it is optimal: stationarity, signs and complementarity hold in the problem's terms, and equally in terms of the model's constraints and their duals. "
 "A feasible bounded problem is reported as solved and an infeasible one as infeasible (problems with neither rows nor objective aside, which the command does not accept).",
 ["inputs"], "every well-scaled linear problem or model, given directly or as a model, with any mix of rows, limits and sense",
 "The repository's Clp tests do not even pass with the installed clp.",
 ["src/solver/clp_cmd.rs", "src/solver/cbc_cmd.rs", "src/problem/milp.rs", "src/model/model.rs"],
 [("SolverClpCmd::solve", "src/solver/clp_cmd.rs"), ("read_sol_file", "src/solver/cbc_cmd.rs")], observe=["status, x, lam, mu, pi", "Model::final_primals, final_duals"])
prop("C22", "Ipopt is always given the problem's true values",
 "In whatever order Ipopt asks for the objective, its gradient, the constraints, their Jacobian and the Hessian, and however it flags points and multipliers as new or seen, every answer is the value at the point and multipliers asked for, with constraint rows first linear then nonlinear and as residuals, positions that match the values, and nothing written beyond the announced sizes. "
 "Requests whose sizes do not match the problem, or that lack required data, are refused.",
 ["histories", "inputs", "fault_sequences"], "every problem and every history of callback requests with truthful newness flags, and every malformed request",
 "The tests let Ipopt call in its own order on three small problems.",
 ["src/solver/ipopt.rs", "src/problem/nlp.rs", "src/problem/minlp.rs"],
 [("eval_f_cb, eval_grad_f_cb, eval_g_cb, eval_jac_g_cb, eval_h_cb", "src/solver/ipopt.rs")],
 state=[("values of the last evaluation", "answers are taken from them when the point is not new", "src/problem/minlp.rs")],
 observe=["buffers seen by the Ipopt C interface (a stand-in libipopt)"])
prop("C23", "Solving with Ipopt passes the problem in, the solution out, and cleans up",
 "Ipopt is created with the problem's sizes and limits, equality targets of zero, the parameter values set by the user and the starting point (zero if there is none), and is run exactly once. "
 "Its point and multipliers are returned with the signs of the problem's convention, its status is reported as solved, infeasible or error accordingly, and everything created is released exactly once whatever happens, with a refusal by Ipopt reported as an error.",
 ["inputs", "configurations", "fault_sequences"], "every problem, parameter setting, return code and solution vector of Ipopt, and failures to create the problem or set an option",
 "The tests only see successful solves of three problems.",
 ["src/solver/ipopt.rs", "src/solver/cipopt.rs"],
 [("SolverIpopt::solve", "src/solver/ipopt.rs")], observe=["calls made to the Ipopt C interface (a stand-in libipopt)", "status and solution returned"])
prop("C24", "Nonlinear models solved with Ipopt satisfy the optimality conditions",
 "When solving a nonlinear or linear problem with Ipopt reports solved, the point is feasible to tolerance and together with the returned multipliers satisfies the first-order optimality conditions of the problem (fixed variables included), and equally those of the model in terms of its constraints and their duals. "
 "Convex problems with finite limits on all variables, at least one variable, an interior point and a moderate starting point are reported as solved.",
 ["inputs"], "every well-scaled smooth problem, given directly or as a model, with linear and nonlinear equalities, inequalities and limits",
 "Three fixed problems are solved, most without checking multipliers.",
 ["src/solver/ipopt.rs", "src/model/model.rs", "src/model/model_std.rs"],
 [("SolverIpopt::solve", "src/solver/ipopt.rs")], observe=["status, x, lam, nu, mu, pi", "Model::final_primals, final_duals"])
prop("C25", "Solver parameters hold the last accepted value and reach the solver",
 "Each solver has a fixed set of parameters; setting one to a value of its type always succeeds and is what reading it, and the next solve, then uses; setting an unknown parameter or a value of another type fails and changes nothing. "
 "Parameters of different solver instances are independent.",
 ["histories", "configurations"], "every sequence of parameter settings and readings on any solver, and every integer, real or text value",
 "Tests set two parameters once and never look at what the solver is given.",
 ["src/solver/base.rs", "src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs", "src/solver/ipopt.rs"],
 [("Solver::set_param", "src/solver/base.rs")], observe=["Solver::get_param", "arguments given to the external command"])
prop("C26", "Failing external solvers are reported and leave nothing behind",
 "Whatever the external cbc or clp command does (missing, crashing at any point, exiting with any code, writing no, partial or garbage output), solving returns a result or an error without crashing, reports solved only if the command wrote a solution that says so, and leaves none of its temporary files in the working directory, also when a parameter is missing or the file cannot be written. "
 "The command is run at most once per solve, on a file stating the problem to solve.",
 ["fault_sequences", "crash_points", "histories"], "every behaviour of the external command, and every sequence of such solves with the same or different solvers",
 "All tests use the working commands.",
 ["src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs"],
 [("temporary files and clean-up in solve", "src/solver/cbc_cmd.rs, src/solver/clp_cmd.rs")], observe=["working directory", "status or error returned", "invocations recorded by a stand-in command"])
prop("C27", "Solvers refuse problems they cannot represent",
 "Each solver accepts exactly the problem types it documents; given any other problem (in particular one with integer variables or nonlinear terms it would have to ignore) it returns an error, without running anything, leaving files or changing the problem. "
 "A model solved with such a solver reports the error and no results.",
 ["inputs", "configurations"], "every problem of each of the four types with every solver, direct or through a model",
 "No test gives a solver an unsupported problem.",
 ["src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs", "src/solver/ipopt.rs", "src/model/model.rs"],
 [("problem type match at the start of solve", "src/solver/*.rs")], observe=["result of solve", "working directory", "invocations recorded by a stand-in command"])
prop("C28", "Concurrent solves in one directory do not disturb each other",
 "When several solves with external solvers run at the same time from the same working directory, in one process or several, each gets the solution of its own problem and no files remain at the end.",
 ["schedules", "histories"], "every number of simultaneous solves, mix of solvers and problems, and order in which the external commands start and finish",
 "The repository's tests are explicitly serialized.",
 ["src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs"],
 [("random temporary file names", "src/solver/cbc_cmd.rs, src/solver/clp_cmd.rs")], observe=["solutions returned", "working directory"])

prop("C29", "Data that does not fit together, and division by zero, is refused",
 "A problem or matrix whose parts do not fit together in size (costs, limits, right-hand sides, integrality, starting point, rows and columns of the matrices, number and shape of Hessians and their combination, vectors multiplied with) is refused when it is created or when it is used, and never silently used in part. "
 "Data that fits is accepted, and gives problems with the sizes and data stated. Likewise a quotient by a constant that is zero is refused when it is written, however the constant was made, and a quotient by any other constant is accepted.",
 ["inputs", "configurations"], "every problem of each of the four types and every matrix, with data that fits or with any one part of another size; every way of writing a quotient by a constant",
 "The tests only make problems from data that fits.",
 ["src/problem/lp.rs", "src/problem/milp.rs", "src/problem/nlp.rs", "src/problem/minlp.rs", "src/matrix/coo.rs", "src/matrix/csr.rs"],
 [("new", "src/problem/milp.rs, src/problem/minlp.rs"), ("assertions in new, combine_h and the products of matrices", "src/matrix/*.rs, src/problem/*.rs")], observe=["whether creation and use panic", "sizes and data read back"])
prop("C30", "Paths to variables are all listed, and the chain rule over them is exact",
 "For an expression and a set of variables, all_simple_paths lists for each requested variable every path from the expression to it through the arguments, exactly once per occurrence, and nothing else. "
 "Summed over these paths, the products of the partial derivatives along them are the derivative of the expression by the variable. The partial derivative of a node by anything that is not one of its arguments is zero.",
 ["inputs"], "every expression (shared subexpressions, repeated arguments, deep chains) and every set of requested variables, present or not",
 "The tests list the paths of a few small expressions.",
 ["src/model/node_diff.rs", "src/model/node_func.rs", "src/model/node.rs"],
 [("all_simple_paths", "src/model/node_diff.rs"), ("partial", "src/model/node_func.rs")], observe=["paths returned by NodeDiff::all_simple_paths", "NodeFunc partial derivatives evaluated"])
prop("C31", "Results do not depend on how a linear model is written or what solves it",
 "However the same linear or mixed-integer model is written (order and names of variables; order, side, scale and splitting of terms and constraints; sense of the objective with the sign of its expression; equalities as pairs of inequalities; implied constraints; a variable standing for a sum) and whichever capable solver is used, the status and the optimal objective value are the same, the values found satisfy every written constraint, and, without integer variables, the duals of the constraints as written fulfil the optimality conditions.",
 ["inputs", "configurations"], "every bounded-coefficient linear or mixed-integer model, every way of writing it, and every installed solver",
 "Each test solves one way of writing one model and compares with recorded numbers.",
 ["src/model/model.rs", "src/model/model_std.rs", "src/model/constraint_std.rs", "src/model/node_std.rs", "src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs", "src/solver/ipopt.rs"],
 [("Model::solve", "src/model/model.rs"), ("Model::std_problem", "src/model/model_std.rs")], observe=["Model::solver_status, final_primals, final_duals"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
