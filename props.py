#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run to regenerate both)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
SC = ["include/Scalar", "src/Scalar", "include/CommonHeader.hpp"]
def P(id, title, statement, over, text, tests, files, mech, observe, tech, note, state=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                _tech=tech, _note=note)
T = "The existing tests evaluate a fixed handful of hand-written formulas in one build configuration (double, complex math on); "
NOTE = "Generated-input search with a deterministic seed against an independent long double reference model; finds violations reachable by the generators, never proves absence. Trusts the reference model, its domain rules and g++."
PBT = "property-based testing: random program generation against an independent reference model, with shrinking"
L = []
L.append(P("C01", "Evaluating an expression yields the value of its formula",
  "For every scalar formula built from variables, parameters, numbers, earlier expressions and the provided operators and functions, and for every assignment of values inside the formula's domain, evaluation returns the mathematical value of the formula at the current values, up to rounding. This holds again after any value is changed, in every supported number type (real or complex, single or double precision), and whether or not the formula was first stored in a named expression.",
  ["programs", "inputs", "configurations"], "all scalar formulas (any operator nesting, any operand kind on either side, shared sub-expressions), all points of their domain, real/complex and float/double builds",
  T + "each operator specialisation and each nesting is a different template instantiation, and only a few of them are instantiated.",
  SC, [("expression templates of the binary operators", "include/Scalar/BinaryOps/*.hpp eval()"), ("unary functions", "include/Scalar/UnaryOps/*.hpp eval()"), ("evaluation entry point", "include/Scalar/CommonFunctions.hpp Eval"), ("value reset before evaluation", "src/Scalar/Variable.cpp resetImpl/reset/eval")],
  ["return value of Eval"], PBT, NOTE))
L.append(P("C02", "Forward mode returns the exact partial derivative",
  "For every scalar formula and every variable, forward-mode differentiation at any point where the formula is differentiable returns the partial derivative of the formula with respect to that variable at the current values, up to rounding. Variables that do not occur, parameters and numbers contribute zero.",
  ["programs", "inputs", "configurations"], "all scalar formulas, every variable (occurring or not), all points of differentiability, all number types",
  T + "the chain rule must hold for every combination of operators, operand kinds and sharing.",
  SC, [("forward accumulation", "include/Scalar/*/Generic*.hpp devalF()"), ("seed", "src/Scalar/Variable.cpp devalF")],
  ["return value of DevalF"], PBT, NOTE + " The derivative of acosh in the complex left half plane (known finding K1) is excluded by construction."))
L.append(P("C03", "Reverse mode returns all partial derivatives from one sweep",
  "For every scalar formula, after one precomputation at the current values, reverse-mode differentiation returns for every variable the same partial derivative the formula defines there, however often variables and sub-expressions are shared, and zero for variables that do not occur. The table of derivatives handed out by the precomputation agrees with the individual queries.",
  ["programs", "inputs", "configurations"], "all scalar formulas including heavily shared sub-expressions, all variables, all points of differentiability, all number types",
  T + "adjoint accumulation goes wrong only for particular sharing patterns and node orders.",
  SC, [("adjoint accumulation", "include/Scalar/*/Generic*.hpp traverse()"), ("cache of adjoints", "m_cache, src/Scalar/Variable.cpp traverse/devalR")],
  ["return values of DevalR after PreComp", "table returned by PreCompCache"], PBT, NOTE + " Known finding K1 excluded by construction."))
L.append(P("C04", "Symbolic derivatives of every order are the derivatives of the formula",
  "Symbolic differentiation of a scalar formula returns an expression that, at every point and after any later change of values, evaluates to the partial derivative of the formula. The result can itself be differentiated, in any mode and with respect to any variable, so repeated symbolic differentiation yields every mixed partial derivative, and the original expression keeps its meaning.",
  ["programs", "inputs", "configurations"], "all scalar formulas, all sequences of variables to differentiate by (orders 1-3 generated, plus one further numeric order), all points",
  T + "higher orders are checked for fixed formulas at one point.",
  SC, [("symbolic evaluation and derivative of each node", "include/Scalar/*/Generic*.hpp symEval()/symDeval()"), ("simplification of zero/one operands", "include/Scalar/BinaryOps/*.hpp"), ("temporaries per node", "include/Scalar/MetaVariable.hpp mp_tmp/mp_dtmp")],
  ["Eval/DevalF/DevalR of the expression returned by SymDiff"], PBT, NOTE + " Known finding K1 excluded by construction."))
L.append(P("C05", "Results depend on current values only, never on earlier calls",
  "For any interleaving of assigning values, evaluating, differentiating in forward, reverse or symbolic mode, on any expressions of a program that share variables and sub-expressions, every result equals what a fresh program with the same formula and the same current values would return. No call changes the meaning or the value of any other expression.",
  ["histories", "programs", "inputs"], "all histories of API calls over programs with shared sub-expressions",
  T + "stale caches and visited flags show only after particular sequences of calls; tests make at most a few calls in a fixed order.",
  SC, [("reset pass", "include/CommonHeader.hpp ResetPass; BINARY_RESET/UNARY_RESET"), ("visited flags and caches", "src/Scalar/Variable.cpp reset/resetImpl/traverse")],
  ["every value returned during the history"], "stateful property-based testing: random call histories against a memoryless reference model", NOTE,
  [dict(name="visited flag, value and adjoint caches of each node", meaning="must be refreshed for every call", where="include/Scalar/IVariable.hpp, src/Scalar/Variable.cpp")]))
L.append(P("C06", "Expressions built step by step in a loop mean the composed formula",
  "Assigning to an expression a formula that mentions the expression itself composes the new formula with its previous meaning, so a formula accumulated over any number of such steps evaluates and differentiates, in every mode, exactly like the same formula written out. Assigning a formula that does not mention the expression replaces its meaning completely.",
  ["programs", "inputs", "histories"], "all loop-built accumulations (any update form, any number of steps, any starting expression), used alone or inside other formulas",
  T + "recursion is exercised with one or two update forms.",
  ["include/Scalar/Expression.hpp", "src/Scalar/Expression.cpp", "src/Scalar/Variable.cpp"],
  [("self-reference detection", "findMe in include/Scalar/**, FIND_ME macros in include/CommonHeader.hpp"), ("ordered list of composed formulas", "m_gh_vec in src/Scalar/Variable.cpp")],
  ["Eval/DevalF/DevalR/SymDiff of the accumulated expression"], PBT, NOTE + " Indirect self-reference through another expression is outside the generated domain."))
L.append(P("C07", "Parameters are live constants and copied handles denote the same quantity",
  "A parameter behaves as a constant in every derivative, yet a later change of its value is reflected by all expressions and derivatives that already use it. Copies, assignments, moves and relocations of a variable or parameter object denote the same quantity as the original: setting a value through any handle changes all of them, and differentiating by any handle gives the same derivative.",
  ["programs", "histories", "inputs"], "all programs that mention a variable or parameter through any mixture of handles, all later updates through any handle",
  T + "copies and parameter updates appear in isolated cases only.",
  ["include/Scalar/Parameter.hpp", "src/Scalar/Parameter.cpp", "src/Scalar/Variable.cpp", "src/Scalar/VarWrap.cpp"],
  [("shared value storage of variables", "Variable copy/move operations in src/Scalar/Variable.cpp"), ("shared value storage of parameters", "src/Scalar/Parameter.cpp")],
  ["Eval/DevalF/DevalR/SymDiff through different handles"], PBT, NOTE))
L.append(P("C08", "User-defined operators obey the chain rule everywhere",
  "A scalar operator defined by the user from a function and its partial derivatives evaluates to that function and is differentiated, in forward and reverse mode, by the chain rule with the given partial derivatives. This holds wherever the operator appears: alone, nested in itself, mixed with built-in operators, with variables, parameters, numbers or expressions on any side, and shared between expressions.",
  ["programs", "inputs", "configurations"], "all compositions of user-defined unary and binary operators (including the provided activation functions) with built-in ones",
  T + "custom operators appear in three fixed formulas.",
  ["include/Scalar/UnaryOps/GenericScalarUnary.hpp", "include/Scalar/BinaryOps/GenericScalarBinary.hpp", "include/Matrix/UnaryFunctions.hpp"],
  [("operator macros", "UNARY_SCALAR_OPERATOR, BINARY_SCALAR_OPERATOR")],
  ["Eval/DevalF/DevalR of formulas with user-defined operators"], PBT, NOTE))
L.append(P("C09", "Numbers of any arithmetic type mix into formulas without loss",
  "A literal of any arithmetic type (integers of any width, floats, doubles, or the library's own number type) on either side of any binary operator means its exact numeric value, both in the value and in all derivatives of the formula. In complex builds, arithmetic and equality between plain real and complex numbers agree with complex arithmetic.",
  ["programs", "inputs", "configurations"], "all formulas with literals of all arithmetic types on either side of every operator; all pairs of real and complex numbers",
  T + "literals are nearly always doubles or the library type, and the mixed real/complex operators are not tested at all.",
  ["include/Scalar/BinaryOps", "src/CommonHeader.cpp", "include/CommonHeader.hpp"],
  [("operator overloads for numeric operands", "include/Scalar/BinaryOps/*.hpp"), ("mixed real/complex operators", "src/CommonHeader.cpp")],
  ["Eval/DevalF/DevalR/SymDiff of formulas with literals", "results of plain mixed arithmetic"], PBT, NOTE))

MC = ["include/Matrix", "src/Matrix", "include/CommonHeader.hpp"]
TM = "The existing tests evaluate some fifty hand-written matrix formulas at fixed values and sizes in one build configuration; "
NM = " Formulas whose matrix elements or scalar factors are ill conditioned, near singular or outside the domain of a function at the generated point are skipped and counted."
L.append(P("C10", "Gradient, Jacobian and Hessian drivers return the derivatives of the formula",
  "For a scalar formula and any vector or matrix of variables, the gradient by a matrix in forward mode (serial or parallel) and in reverse mode, the Jacobian and Hessian drivers and their symbolic counterparts return, at every position of their result, the first or second partial derivative of the formula by the variables of that position. Variables that do not occur or occur several times are handled, Hessians are complete and symmetric, and the given expression keeps its meaning.",
  ["programs", "inputs", "configurations"], "all scalar formulas (including loop-built ones), all vectors and matrices of variables in any order, with repetitions and absent variables",
  TM + "the drivers are called with a few fixed formulas and shapes, some never at all.",
  ["include/Matrix/CommonMatFunctions.hpp", "src/Matrix/CommonMatFunctions.cpp", "include/Scalar"],
  [("drivers", "include/Matrix/CommonMatFunctions.hpp DevalF/DevalR (matrix of variables), JacobianF/JacobianR, HessianF/HessianR, SymGradient/SymHessian/SymMatrix"), ("symbolic first derivatives", "src/Scalar/Expression.cpp SymDiff")],
  ["matrices returned by the drivers"], PBT, NOTE))
L.append(P("C11", "Evaluating a matrix expression yields the value of its formula",
  "For every matrix formula built from matrices of variables, numbers, parameters and expressions, scalars, and the provided operators and functions (sum, difference, product, Hadamard and Kronecker product, elementwise division, transpose, inverse, determinant, trace, vec, elementwise functions, concatenation, broadcasting, sums and mixed scalar and matrix operands on either side), and for all conformable shapes including 1x1, rows and columns, evaluation returns the mathematical matrix value at the current values with the right dimensions, up to rounding. This holds with every linear algebra backend, in every number type, and again after values change.",
  ["programs", "inputs", "configurations"], "all matrix formulas, all conformable shapes, all points of their domain, both CPU backends, real/complex and float/double builds",
  TM + "every pair of operand kinds, every operator nesting and every special shape is a different path.",
  MC, [("expression nodes", "include/Matrix/BinaryOps/*.hpp, include/Matrix/UnaryOps/*.hpp eval()"), ("numeric kernels", "include/Matrix/MatrixHandler/**"), ("special handling of zero, one and identity operands", "include/Matrix/MatrixHandler/**, src/Matrix/MatOperators.cpp"), ("derived functions", "include/Matrix/CommonMatFunctions.hpp")],
  ["matrix returned by Eval"], PBT, NOTE + NM))
L.append(P("C12", "Forward derivatives of matrix expressions are exact and laid out blockwise",
  "Forward-mode differentiation of any matrix formula F by any matrix of variables X returns the matrix whose block (l,k), of the shape of X, holds the partial derivatives of F(l,k) by the elements of X, up to rounding. This covers every operator, operand kind, shape and backend, variables that occur anywhere in the formula (as elements of other matrices, inside scalar factors, repeatedly or not at all), and scalar expressions inside matrices.",
  ["programs", "inputs", "configurations"], "all matrix formulas, all matrices of variables (occurring or not), all conformable shapes, both CPU backends, all number types",
  TM + "most operators are differentiated for one or two shapes only, where a wrong layout can go unnoticed.",
  MC, [("product and chain rules", "include/Matrix/BinaryOps/*.hpp, include/Matrix/UnaryOps/*.hpp devalF()"), ("derivative kernels", "include/Matrix/MatrixHandler/**/MatDerv*.hpp"), ("seed derivative", "include/Matrix/MatrixInterface/MatrixUtils.ipp setDevalF")],
  ["matrix returned by DevalF"], PBT, NOTE + NM))
L.append(P("C13", "Reverse mode of scalar-valued matrix expressions returns the gradient",
  "For every matrix formula with a 1x1 result (such as norms, traces, determinants, quadratic forms and losses), after one precomputation reverse-mode differentiation by any matrix of variables returns the gradient in the shape of that matrix, and by any scalar variable the 1x1 derivative; matrices and variables that do not occur give zeros. Shared sub-expressions contribute once per use.",
  ["programs", "inputs", "configurations"], "all scalar-valued matrix formulas of the supported operators (convolution excepted), all matrices and scalar variables to differentiate by, both CPU backends, all number types",
  TM + "adjoint accumulation goes wrong only for particular sharing patterns, shapes and operator orders.",
  MC, [("adjoint accumulation", "include/Matrix/BinaryOps/*.hpp, include/Matrix/UnaryOps/*.hpp traverse()"), ("adjoint cache", "m_cache, include/Matrix/MatrixInterface/MatrixVirtuals.ipp traverse")],
  ["matrix returned by DevalR after PreComp"], PBT, NOTE + NM + " Reverse mode of convolution is outside the generated domain: its result is wrong by design of the pinned tests (DESIGN.md)."))
L.append(P("C14", "The linear algebra backends agree",
  "For every matrix formula without inverse and determinant (which only one backend implements), evaluation, forward and reverse derivatives agree, up to rounding, whichever CPU backend is selected, and switching the backend between calls on the same expressions changes no result.",
  ["programs", "inputs", "histories", "configurations"], "all such matrix formulas, all shapes and values including zero, one and identity operands, all sequences of backend switches",
  TM + "the second backend is used by almost none of them.",
  ["include/Matrix/MatrixHandler", "src/Matrix/MatOperators.cpp", "src/Matrix/GlobalParameters.cpp"],
  [("backend selection", "src/Matrix/MatOperators.cpp, src/Matrix/GlobalParameters.cpp"), ("kernels", "include/Matrix/MatrixHandler/**/Eigen, **/NaiveCPU")],
  ["results of the same call under both backends"], "property-based testing: differential between both backends on generated programs, plus the reference model", NOTE))
L.append(P("C15", "Matrices are faithful containers with shared or owned storage as documented",
  "A matrix holds exactly the elements written to it, through whichever constructor, assignment, element, row, column or block access, reshaping, padding or copy they were written, and reads them back in row-major order with the right dimensions. Copies are independent, moves and swaps transfer contents, clones and external buffers share storage, copies and parts of a matrix of variables denote the same variables, the constant matrices have the documented contents, and random filling respects the parameters of each call.",
  ["histories", "inputs", "configurations"], "all histories of container operations on any number of matrices of any shape, for numbers, real numbers and variables",
  "The existing tests use matrices almost only as operands and never mix the container operations.",
  ["include/Matrix/Matrix.hpp", "include/Matrix/MatrixInterface", "src/Matrix/MatrixBasics.cpp", "include/MemoryManager"],
  [("constructors, copy, move, swap, assignment", "include/Matrix/Matrix.hpp"), ("element, row, column access", "include/Matrix/MatrixInterface/MatrixAccessors.ipp"), ("blocks, padding, reshaping, copying", "include/Matrix/MatrixInterface/MatrixUtils.ipp"), ("registry of constants", "src/Matrix/MatrixBasics.cpp"), ("derivative of a matrix of variables by another", "MatrixUtils.ipp setDevalF")],
  ["elements and dimensions read back", "Eval/DevalF of copied variable matrices"], "stateful property-based testing: random operation histories against a reference model of storage and sharing", NOTE + " Copying a moved-from matrix is outside the generated domain."))
L.append(P("C16", "Derived matrix functions equal their definitions",
  "Softmax (over all elements, rows or columns), sigmoid and sums over an axis, Frobenius norm, trace, integer powers, matrix exponential and logarithm series, broadcasting, activation functions and user-defined elementwise functions evaluate to their mathematical definition and are differentiated accordingly, for all shapes they accept, alone and nested in each other and in other formulas.",
  ["programs", "inputs", "configurations"], "all compositions of the derived functions over generated matrices, all accepted shapes, both CPU backends, all number types",
  TM + "each derived function is tested once with one matrix.",
  ["include/Matrix/CommonMatFunctions.hpp", "include/Matrix/UnaryFunctions.hpp", "include/Matrix/UnaryOps"],
  [("definitions", "include/Matrix/CommonMatFunctions.hpp"), ("elementwise functions and their derivatives", "include/Matrix/UnaryFunctions.hpp, include/Matrix/UnaryOps/GenericMatUnary.hpp")],
  ["Eval and DevalF of formulas made of derived functions"], PBT, NOTE + NM))
L.append(P("C17", "Convolution computes strided, padded cross-correlation",
  "Convolution of any matrix expression with any kernel expression, for all strides and paddings with which the kernel fits, has the documented output size, evaluates to the strided cross-correlation of the zero-padded operand with the kernel, and its forward derivative by any matrix of variables is the derivative of that value, whether the variables are in the image, in the kernel or in both, at the first and at every later call, also with changed shapes or backends in between.",
  ["programs", "inputs", "histories"], "all image and kernel shapes, strides and paddings, all placements of variables, repeated calls",
  TM + "four fixed convolutions are evaluated.",
  ["include/Matrix/BinaryOps/GenericMatConv.hpp", "include/Matrix/MatrixHandler/MatrixConvolution", "include/Matrix/MatrixInterface/MatrixUtils.ipp"],
  [("output size", "GenericMatConv.hpp getNumRows/getNumColumns"), ("kernels", "include/Matrix/MatrixHandler/MatrixConvolution/**"), ("zero padding", "MatrixUtils.ipp pad")],
  ["Eval and DevalF of convolutions"], PBT, NOTE))
L.append(P("C18", "Matrix results depend on current values only, never on earlier calls",
  "For any history of assigning values, evaluating, differentiating in forward and reverse mode by different matrices, copying, extending and reassigning matrix expressions, and switching backends, every result equals what a fresh program with the same formulas and values would return. No call changes the elements of a variable or number matrix, of the shared constant matrices, or the meaning or result of any other expression.",
  ["histories", "programs", "inputs"], "all histories of API calls over matrix programs with shared sub-expressions, shared variables and reused buffers",
  TM + "stale buffers and caches show only after particular sequences of calls with changing values and shapes.",
  MC, [("reset pass", "include/Matrix/MatrixInterface/MatrixUtils.ipp resetImpl, include/CommonHeader.hpp ResetPass"), ("buffer pool", "include/MemoryManager/MemoryManager.hpp MatrixPool"), ("reassignment", "include/Matrix/Matrix.hpp operator=")],
  ["every matrix returned during the history, elements of leaves and constants"], "stateful property-based testing: random call histories against a memoryless reference model", NOTE,
  [dict(name="result buffers, visited flags and adjoint caches of each matrix node", meaning="must be refreshed for every call", where="include/Matrix/Matrix.hpp, include/Matrix/IMatrix.hpp")]))
L.append(P("C19", "No valid use reads or writes outside live memory or runs undefined operations",
  "No sequence of valid calls, on scalar formulas, matrix formulas or containers, reads or writes memory out of bounds or after it was released, uses an uninitialised flag, overflows a signed integer or performs any other operation the language leaves undefined, and every such sequence ends.",
  ["histories", "programs", "inputs"], "all programs and histories of the other properties (scalar and matrix formulas, drivers, backends, containers)",
  "The existing tests run without instrumentation, where an out-of-bounds read usually goes unnoticed, and use few shapes.",
  ["include", "src"],
  [("buffers of matrix results", "include/Matrix/Matrix.hpp, include/MemoryManager/MemoryManager.hpp"), ("index arithmetic of kernels", "include/Matrix/MatrixHandler/**"), ("node lifetime", "include/MemoryManager"), ("derivative layouts", "include/Matrix/MatrixHandler/**/MatDerv*.hpp")],
  ["AddressSanitizer/UndefinedBehaviorSanitizer reports, libstdc++ container assertions, crashes and hangs"], "property-based testing under sanitizers: the generated programs of all properties, oracle = sanitizer report, crash or hang",
  "Generated-input search in an instrumented build (AddressSanitizer, UndefinedBehaviorSanitizer, container assertions); arena memory of the library is checked at the granularity of its allocations."))
L.append(P("C20", "Operands that do not fit are reported, never computed with",
  "With dynamic assertions enabled, every ill-formed request is reported with the library's error message instead of returning a result: operators on matrices of mismatching dimensions, square-only functions on other shapes, broadcasting a full matrix, a convolution kernel larger than the padded image, reverse mode of a result that is not 1x1, and element, row, column or block accesses out of range. Reporting does not depend on operand kind, operand order, backend or mode.",
  ["programs", "inputs"], "all operators with all non-conformable shapes and operand kinds, both CPU backends, evaluation and forward mode; all out-of-range container accesses",
  "The existing tests never make an ill-formed request.",
  MC, [("dimension checks", "ASSERT in include/Matrix/MatrixHandler/**, verifyDim in include/Matrix/BinaryOps/*.hpp, include/Matrix/CommonMatFunctions.hpp"), ("index checks", "include/Matrix/MatrixInterface/MatrixAccessors.ipp, MatrixUtils.ipp")],
  ["outcome of the call in a child process: library error message and abort"], "property-based testing: generated ill-formed requests executed in child processes, outcome classified", NOTE))

NOT_APPLICABLE = []
if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in L:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = dict(version=1, setup_cmd="python3 /verif/check.py --help >/dev/null && mkdir -p /verif/evidence /verif/replays",
             checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                          evidence_file=f"evidence/{p['id']}.json", technique=p["_tech"], level="exploration", level_note=p["_note"]) for p in L],
             not_applicable=NOT_APPLICABLE,
             notes="No hooks in /repo: every property is observed through the public API. Known findings and fixed defects: known_findings.txt. Replay a counterexample with: python3 check.py ID --replay FILE.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
