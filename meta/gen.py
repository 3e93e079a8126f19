"""Writes properties.jsonl and MANIFEST.json from one table: python3 meta/gen.py (run by hand, not by the checks)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MATERIAL, PROPERTY, STRENGTH, STRUCTURE = (f"composipy/core/{x}.py" for x in ("material", "property", "strength", "structure"))
VALID = "composipy/utils/validators.py"
PCOMP = "composipy/nastranapi/pcomp_generator.py"
OPT = ["composipy/optimize/_maximize_buckling.py", "composipy/optimize/_minimize_panel_weight.py", "composipy/optimize/utils.py"]
PRE = [f"composipy/pre_integrated_component/{x}.py" for x in ("_ii_F", "_S", "functions", "build_k")]
AI = "abstract interpretation of the current source over an algebraic value domain"

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=()):
    assert len(title) <= 80, title
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=list(observe)))


ALG = ("Decides, for every real input of the stated domain, algebraic identity of the computed values with an oracle written from the theory; the number of "
       "plies / terms is enumerated (contexts listed in the evidence), everything else is symbolic. Trusts the models of numpy/pandas/scipy operations, real "
       "arithmetic (no rounding) and value numbering by random fingerprints (error below 2^-100 per comparison).")
EFF = ("Decides the stated effects on every path of the analysed source; library calls are classified by a table of models, an unmodelled one "
       "makes the check fail as broken instead of passing.")

prop("P01", "Ply stiffness is the plane-stress stiffness of its constants",
     "For every orthotropic or isotropic material, the reported in-plane stiffness matrix is the plane-stress matrix of the engineering constants it was given: "
     "Q11 = E1/(1-v12 v21), Q22 = E2/(1-v12 v21), Q12 = v12 Q22, Q66 = G12 with v21 = v12 E2/E1 (E1 = E2 = E, G given, for isotropic ones), zero elsewhere. "
     "It is symmetric and the same on every read.",
     ["inputs"], "all positive moduli, Poisson ratios in [-0.5, 0.5], any thickness and allowables, arguments by position or name, any number of reads",
     "tests compare one ply with stored numbers to a tolerance; a formula that agrees at those numbers (v12 = v21, E1 >> E2) passes",
     [MATERIAL], [("Q_0 of OrthotropicMaterial and IsotropicMaterial", MATERIAL)], AI + " against the plane-stress oracle", ALG, observe=["Material.Q_0", "Material.v21"])
prop("P02", "Each ply stiffness is rotated to the laminate axes by its own angle",
     "For every laminate defined by ply angles, the k-th rotated stiffness is that of the k-th material turned by the k-th angle (degrees), i.e. the strain energy "
     "is the same in both axes, and the k-th pair of transformations are the stress and the engineering-strain rotation of that angle. "
     "Order is that of the stacking, for one material shared by all plies or one per ply.",
     ["inputs"], "all angles (real numbers of degrees) and materials per ply, list/tuple/array stackings",
     "tests use 0/90/45 laminates where a swapped sign of sin*cos, or a wrong ply order, cancels",
     [PROPERTY], [("Q_layup, T_layup", PROPERTY)], AI + " against the energy-invariance oracle", ALG, observe=["LaminateProperty.Q_layup", "LaminateProperty.T_layup"])
prop("P03", "A, B, D and ABD are the thickness moments of the rotated stiffness",
     "For every laminate, ply interfaces run from -T/2 to T/2 in stacking order, and A, B, D are the integrals of the rotated ply stiffness times 1, z, z^2 over "
     "the thickness, ABD being [[A, B], [B, D]]. They are symmetric, and B vanishes for symmetric stackings.",
     ["inputs"], "all stackings, angles, thicknesses and materials per ply; reads in any order",
     "tests check a few laminates with equal ply thickness; wrong z bookkeeping for unequal plies or non-symmetric stacks is unseen",
     [PROPERTY], [("z_position, A, B, D, ABD", PROPERTY)], AI + " against thickness integrals", ALG, observe=["LaminateProperty.A", "B", "D", "ABD", "z_position"])
prop("P04", "Lamination parameters reported are those of the stacking",
     "For every laminate defined by ply angles, the reported extension and bending lamination parameters are the normalised thickness integrals of cos 2t, sin 2t, "
     "cos 4t, sin 4t (weights 1/T and 12 z^2/T^3) over the plies in stacking order.",
     ["inputs"], "all angles and ply thicknesses",
     "tests use one balanced laminate where the sine terms and most cancellations vanish",
     [PROPERTY], [("xiA, xiD", PROPERTY)], AI + " against thickness integrals", ALG, observe=["LaminateProperty.xiA", "LaminateProperty.xiD"])
prop("P05", "Laminates defined by lamination parameters get the stiffness these imply",
     "For a laminate defined by a thickness and lamination parameters, A and D are the invariant-based stiffnesses of those parameters, the parameters read back "
     "are those given, and missing bending parameters or thickness raise KeyError naming the key. For a laminate of one material, giving back "
     "its own parameters reproduces the A and D obtained from its angles.",
     ["inputs"], "all parameter values, thicknesses and materials; presence or absence of each key",
     "tests check one set of parameters; the agreement of both descriptions quantifies over all stackings",
     [PROPERTY, MATERIAL], [("A, D of LaminateProperty from xiA, xiD", PROPERTY), ("Invariants", MATERIAL)], AI + ", both descriptions compared symbolically", ALG,
     observe=["LaminateProperty.A", "D", "xiA", "xiD"])
prop("P06", "Mid-plane strains and curvatures equilibrate the applied loads",
     "For every laminate and membrane/bending load vector, the reported mid-plane strains and curvatures multiplied by the laminate's ABD matrix give back exactly "
     "(Nxx, Nyy, Nxy, Mxx, Myy, Mxy).",
     ["inputs"], "all laminates with invertible ABD and all six load components, in any combination",
     "tests use single-load cases of symmetric laminates, where a wrong order of components goes unnoticed",
     [STRENGTH], [("epsilon0", STRENGTH)], AI + "; ABD times the response reduces to the loads", ALG, observe=["LaminateStrength.epsilon0"])
prop("P07", "Ply strain table is the Kirchhoff field of the mid-plane response",
     "For every ply the strain table has a 'bot' and a 'top' row, bottom ply first, whose x-y strains are e0 + z*kappa at that very interface, with ply number, z and "
     "angle of that ply.",
     ["inputs"], "all laminates, loads and plies", "tests check one symmetric laminate under one load",
     [STRENGTH], [("calculate_strain", STRENGTH)], AI + " through the pandas table", ALG, observe=["LaminateStrength.calculate_strain"])
prop("P08", "Ply stress table is the rotated stiffness times the strain of that ply",
     "For every ply and face the laminate-axis stresses reported equal that ply's rotated stiffness times the strain reported at the same face, in the same row "
     "order and with the same labels.",
     ["inputs"], "all laminates, loads and plies", "tests check one laminate of one material",
     [STRENGTH], [("calculate_stress", STRENGTH)], AI + " through the pandas table", ALG, observe=["LaminateStrength.calculate_stress"])
prop("P09", "Material-axis strains and stresses are consistent rotations",
     "For every ply and face the material-axis strains and stresses are the laminate-axis ones turned by that ply's angle (engineering shear strains), and they obey "
     "the ply's own stress-strain law.",
     ["inputs"], "all laminates, loads, angles and plies", "tests compare stored numbers for one laminate; factor-of-two shear errors cancel when the shear strain is zero",
     [STRENGTH], [("calculate_strain, calculate_stress material columns", STRENGTH)], AI + " through the pandas table", ALG,
     observe=["calculate_strain", "calculate_stress"])
prop("P10", "Maximum-stress margins compare each stress with its own allowable",
     "For every ply and face the margin of each mode is allowable/|stress| - 1 for a stress of that mode's sense and infinite otherwise, in rows labelled as in the "
     "stress table. The critical mode named is one whose margin is lowest in that row.",
     ["inputs"], "all laminates, loads, positive allowables, and all signs and orderings of the stress components",
     "tests check one laminate and one load sign", [STRENGTH], [("calculate_maxstressmargin", STRENGTH)],
     AI + " with sign-guarded alternatives", ALG, observe=["LaminateStrength.calculate_maxstressmargin"])
prop("P11", "Strain, stress and stiffness responses obey superposition",
     "Mid-plane response, ply strains and ply stresses are linear in the six loads, and the geometric stiffness is linear in its three loads: the response to a sum of load "
     "cases is the sum of the responses, and zero loads give zero.",
     ["inputs"], "all laminates, plates and pairs of load cases", "tests never combine load cases",
     [STRENGTH, STRUCTURE], [("linear operators only between loads and results", STRENGTH)], AI + ": responses of several load cases compared symbolically", ALG,
     observe=["epsilon0", "calculate_strain", "calculate_stress", "calc_K_KG_D"])
prop("P12", "Results scale consistently with units",
     "Multiplying every modulus, or every length, by a factor scales the ply stiffness, A, B, D, the strains, stresses, margins and plate matrices by the powers dimensional analysis "
     "requires.",
     ["inputs"], "all laminates, plates, loads and scale factors", "tests use one unit system",
     [MATERIAL, PROPERTY, STRENGTH, STRUCTURE], [("dimensional homogeneity of every formula", PROPERTY)],
     AI + ": scaled and unscaled programs compared symbolically", ALG, observe=["Q_0", "ABD", "epsilon0", "calculate_stress", "calc_K_KG_D"])
prop("P13", "Integral look-ups return the exact integrals of the shape functions",
     "For every pair of function numbers and derivative orders provided, the looked-up value is the exact integral over [-1, 1] of the product of the two "
     "(differentiated) shape functions; look-ups with the derivative orders exchanged agree.",
     ["inputs"], "all 30 x 30 index pairs of all nine derivative combinations (the whole domain of the tables)",
     "tests touch the few indices of small plates with a tolerance",
     PRE[:1] + PRE[2:3], [("tables ii_FF ... ii_FXIXI_FXIXI and their accessors", PRE[0])],
     "exact rational evaluation of every table literal (syntax tree) against integrals of polynomials, accessors by " + AI,
     "Complete: every entry and every accessor is decided exactly. The shape functions of the oracle are the documented Bardell set.", observe=["ii_ff", "ii_fxi_fxi", "..."])
prop("P14", "Shape functions and their products are the hierarchical polynomial set",
     "For every function number and every coordinate, evaluating a shape function returns the Bardell polynomial of that number, and the product vector of a plate lists f_i(xi) f_j(eta) in the "
     "order of the index pairs it is given.",
     ["inputs"], "all 30 function numbers, all index lists, all real coordinates", "tests do not evaluate the functions at all",
     PRE[1:3], [("tables of _S and fxi, sxieta", PRE[1])], "polynomial normal form of every table literal plus " + AI, ALG, observe=["fxi", "sxieta"])
prop("P16", "Bending stiffness matrix is the plate's bending energy",
     "For every plate, entry (p, q) of the bending stiffness matrix is the second variation of the bending strain energy with the laminate's D matrix between the p-th and q-th "
     "retained deflection functions over the a x b plate; hence the matrix is symmetric.",
     ["inputs", "configurations"], "all laminates, dimensions, edge conditions and numbers of terms",
     "tests compare one or two buckling factors to a tolerance, insensitive to D16/D26 terms and aspect ratio slips",
     [STRUCTURE] + PRE[2:], [("calc_K_KG_D", STRUCTURE), ("calc_k33_ijkl", PRE[3])], AI + " against the energy bilinear form", ALG, observe=["PlateStructure.calc_K_KG_D"])
prop("P17", "Geometric stiffness matrix is the work of the membrane loads",
     "For every plate, the geometric stiffness entry of two deflection functions is the second variation of the work of Nxx, Nyy and Nxy, with zeros for in-plane functions, "
     "in both the bending-only and the full analysis.",
     ["inputs", "configurations"], "all loads, dimensions, edge conditions and numbers of terms", "tests rarely apply Nyy and never Nxy together with unequal m and n",
     [STRUCTURE] + PRE[2:], [("calc_K_KG_D, calc_K_KG_ABD", STRUCTURE), ("calc_kG33_ijkl", PRE[3])], AI + " against the work bilinear form", ALG,
     observe=["PlateStructure.calc_K_KG_D", "calc_K_KG_ABD"])
prop("P18", "Full stiffness matrix is the coupled membrane-bending energy",
     "For every plate, the full stiffness matrix is the second variation of the laminate strain energy with all 18 distinct terms of ABD between the retained in-plane and deflection functions, "
     "ordered u, v, w; hence it is symmetric and its deflection block is the bending matrix.",
     ["inputs", "configurations"], "all laminates (also unsymmetric), dimensions, edge conditions and numbers of terms", "tests use symmetric laminates where B vanishes",
     [STRUCTURE] + PRE[2:], [("calc_K_KG_ABD", STRUCTURE), ("calc_k11 ... calc_k33", PRE[3])], AI + " against the energy bilinear form", ALG, observe=["PlateStructure.calc_K_KG_ABD"])
prop("P19", "Edge conditions suppress exactly the functions they forbid",
     "For every edge description (preset name, named edges, lists of degrees of freedom, or a mixture, names in any letter case), each displacement field uses the lowest m x n functions that vanish, "
     "in value or slope, at exactly the edges where the description fixes that degree of freedom.",
     ["configurations"], "all combinations of conditions on four edges for three fields, all m and n", "tests use PINNED/CLAMPED and one dictionary",
     [STRUCTURE], [("_compute_constraints", STRUCTURE)], AI + " with every edge's set of degrees of freedom symbolic", ALG,
     observe=["PlateStructure.su_idx", "sv_idx", "sw_idx"])
prop("P20", "Buckling analysis returns -1/mu and mode of the pair (KG, K), lowest first",
     "Buckling factors and modes returned are those of the plate's own stiffness and geometric matrices, each factor lambda satisfying (K + lambda KG) c = 0 with its own mode, as "
     "many as requested and possible, also kept on the plate. The first one is the lowest factor whatever the units of the loads.",
     ["inputs", "configurations"], "all plates, loads and requested numbers of modes", "tests compare first factors for loads of order one",
     [STRUCTURE], [("buckling_analysis", STRUCTURE)], AI + "; what reaches the eigensolver and what is done with its answer",
     ALG + " The eigensolver's accuracy and ordering are its documented contract.", observe=["PlateStructure.buckling_analysis", "eigenvalue", "eigenvector"])
prop("P21", "Plotted mode shape is the computed mode on the requested grid",
     "For any grid size in x and y, the surface drawn for the n-th mode has at each grid point of the a x b plate the deflection of that mode's coefficients and functions, computing the modes first when needed.",
     ["inputs", "configurations"], "all grid sizes, modes and plates", "tests draw nothing",
     [STRUCTURE], [("plot_eigenvalue", STRUCTURE)], AI + " up to the drawing call", ALG, observe=["plot_surface arguments"])
prop("P22", "Buckling-load maximisation states the right optimisation problem",
     "The optimiser is asked to maximise the buckling factor of the very panel described (dimensions, thickness, material, edge conditions, terms) under the loads divided by the largest one, over bending lamination "
     "parameters in [-1, 1] within the chosen feasible region, and its result is returned. A design whose analysis fails counts as no better than any other.",
     ["inputs", "configurations"], "all panels, loads, options and feasible-region choices", "the tests need a converged optimisation and check one optimum",
     OPT, [("maximize_buckling_load", OPT[0]), ("Ncr_from_lp and the constraint functions", OPT[2])], AI + " of the problem handed to the optimiser", ALG + " Convergence of the optimiser is out of reach.",
     observe=["scipy.optimize.minimize arguments"])
prop("P23", "Weight minimisation states the right optimisation problem",
     "The optimiser is asked to minimise an increasing function of the thickness subject to the panel's buckling load, under the normalised loads, reaching the largest applied load, with lamination parameters and thickness in their admissible "
     "ranges, from the given start; its result is returned. A design whose analysis fails does not satisfy the load constraint.",
     ["inputs", "configurations"], "all panels, loads, starts and options", "the tests check one optimum",
     OPT, [("minimize_panel_weight", OPT[1]), ("Ncr_from_lp and the constraint functions", OPT[2])], AI + " of the problem handed to the optimiser", ALG + " Convergence of the optimiser is out of reach.",
     observe=["scipy.optimize.minimize arguments"])
prop("P24", "Loads are normalised by the largest and misuse is warned about",
     "For all loads, both optimisations work with the loads divided by the largest absolute value, warn when no load can buckle the panel (no negative normal load and no shear), warn when some "
     "load exceeds one in absolute value, and do not warn otherwise.",
     ["inputs"], "all signs, magnitudes and orderings of the three loads", "tests use one load case",
     OPT, [("check_loads, normalize_critical_load", OPT[2])], AI + " with sign-guarded alternatives", ALG, observe=["warnings", "minimize arguments"])
prop("P25", "Stacking strings expand to the sequence they denote",
     "Every stacking string of the documented notation (angles, \\pm, repetition suffix with or without braces, parenthesised blocks with multiplier, brackets, symmetry mark in either case) expands to exactly the "
     "list of angles it denotes, in order. A group that is not an angle with at most one repetition count raises ValueError.",
     ["inputs"], "all angles and repetition counts in strings of the grammar up to a bounded number of groups", "tests expand four strings",
     [PCOMP], [("build_sequence", PCOMP)], AI + " on symbolic strings (literal structure, symbolic numbers)", ALG + " String shapes are enumerated up to the bound in the evidence; numerals are symbolic.", observe=["build_sequence"])
prop("P26", "PCOMP cards list every ply with its own data",
     "For any number of plies, the card has a header with property id and offset and then two plies a line, each ply in stacking order with its own material id, thickness, angle and output flag, fields separated by "
     "commas and lines linked by continuation marks. A list of the wrong length or an unknown output request raises ValueError.",
     ["inputs"], "all sequences, scalar or per-ply materials, thicknesses and output requests", "tests compare two cards",
     [PCOMP], [("build_pcomp", PCOMP)], AI + " on symbolic strings", ALG, observe=["build_pcomp"])
prop("P27", "Invalid inputs are rejected and valid ones accepted as given",
     "Constructors reject every value outside the documented range or of the wrong kind with a ValueError naming the argument, and accept every valid one, storing exactly that value (numbers given as text or integers "
     "included) under its own attribute.",
     ["inputs"], "all values of each constructor argument, one at a time and together", "tests try a handful of invalid values",
     [MATERIAL, STRUCTURE, VALID], [("validators", VALID)], AI + " with unconstrained arguments: reachable outcomes per range", ALG, observe=["constructors and attributes of materials, plates"])
prop("P28", "Inputs are never modified and results never depend on earlier calls",
     "No call modifies an object it was given or one it returned earlier, and every attribute or analysis result is the same whatever was read or computed before on the same or other objects.",
     ["histories", "inputs"], "all sequences of public reads and calls up to the enumerated length on shared objects", "tests build fresh objects and read once",
     [MATERIAL, PROPERTY, STRENGTH, STRUCTURE, PCOMP], [("caches and in-place arithmetic", PROPERTY)], AI + " with write tracking over call histories", ALG + " Histories are enumerated up to the bound in the evidence.",
     observe=["all public attributes and methods"])
prop("P29", "Only the library's own constant tables are ever evaluated as code",
     "Text is executed as code only when it is a literal of the library's own tables, which contain nothing but arithmetic on the coordinate variable; no user-supplied value can reach an evaluation, import by name or "
     "shell call.",
     ["inputs", "programs"], "all evaluation sites and all table entries", "tests cannot show the absence of other sites or contents",
     PRE[:3], [("eval sites", PRE[2])], "taint of every evaluation site by " + AI + ", plus whole-package call queries and a grammar check of all table literals", EFF, observe=["eval call sites"])
prop("P30", "Results are reproducible and analyses have no hidden global effects",
     "No analysis depends on the clock, unseeded randomness, environment, process state or hash order, and none writes files, global interpreter or library settings, or prints, other than documented reporting.",
     ["histories", "inputs"], "all library functions and call sequences", "a test run cannot show absence",
     [STRENGTH, STRUCTURE] + OPT, [("eigensolver start vector", STRUCTURE), ("display option", STRENGTH)], "effect analysis over the call graph by " + AI + " and whole-package syntax queries", EFF,
     observe=["process-wide state"])
prop("P31", "Every kind of material works in every analysis that takes plies",
     "Isotropic and orthotropic materials, with or without optional allowables and names, can be used interchangeably in laminates, lamination-parameter laminates, strength and plate analyses: no attribute is missing and an "
     "isotropic ply gives what the equivalent orthotropic ply gives.",
     ["inputs", "configurations"], "all materials in all analyses", "tests build isotropic materials only once, with all arguments",
     [MATERIAL], [("sibling material classes", MATERIAL)], AI + ", isotropic and equivalent orthotropic programs compared", ALG, observe=["all analyses"])
prop("P32", "Materials and laminates are equal exactly when their definitions are",
     "Two materials of the same kind are equal exactly when every constant, thickness and allowable agrees (names do not matter), and two laminates exactly when their plies and angles, or lamination parameters, thickness and "
     "material, agree; equality is symmetric.",
     ["inputs"], "all pairs of objects", "tests compare two or three pairs",
     [MATERIAL, PROPERTY], [("__eq__", MATERIAL)], AI + " with boolean outcome guards", ALG, observe=["=="])
prop("P33", "Defining data of materials and plates cannot be reassigned",
     "The constants of a material and the defining data of a plate (property, dimensions, edge conditions, loads, numbers of terms) are readable under their documented names and assigning to them raises AttributeError, leaving the "
     "object unchanged.",
     ["histories"], "all documented attributes of all instances", "tests never assign",
     [MATERIAL, STRUCTURE], [("properties without setter", MATERIAL)], AI + " of attribute assignment", ALG, observe=["attributes"])
prop("P34", "Picture of the optimisation shows the problem and its solution",
     "With plot=True, the buckling-load maximisation draws, over the grid of points_to_plot values of each lamination parameter from -1 to 1, the buckling factor of the described panel "
     "with these parameters under the given loads (up to one load scale) at every point of the chosen feasible region and nothing outside; it draws the boundary of this region and marks the "
     "point the optimiser ended at, and returns the result as without the picture. Without plot=True nothing is drawn by either optimiser.",
     ["inputs", "configurations"], "all panels, loads, edge conditions, terms, regions; grid sizes enumerated", "tests draw nothing",
     OPT, [("plot_optimization", OPT[2]), ("plot branch of maximize_buckling_load", OPT[0])], AI + " up to the drawing calls", ALG,
     observe=["contour, plot and show calls of matplotlib.pyplot"])
prop("P35", "Text of materials and laminates states their own data",
     "The text (repr, str) of a material gives after the name of each elastic constant, thickness and allowable exactly that value of this object, and its given name; "
     "the text of a laminate contains the stacking it was given.",
     ["inputs"], "all materials with any allowables given or defaulted; laminates of lists, tuples, arrays and lamination parameters",
     "tests print nothing; a swapped or rounded constant needs values that tell it apart",
     [MATERIAL, PROPERTY], [("__repr__ of the materials", MATERIAL), ("__repr__ of LaminateProperty", PROPERTY)], AI + " with texts as sequences of literal pieces and inserted values",
     ALG + " How a number is written out is Python's.", observe=["repr(material)", "repr(laminate)"])
prop("N01", "The eigensolver finds the lowest factor to machine accuracy",
     "Buckling factors returned agree with the exact eigenvalues of the matrices to a small relative error.", ["inputs"], "all plates",
     "accuracy over all matrices", [STRUCTURE], [("eigsh call", STRUCTURE)],
     na="numerical convergence of an iterative solver on run-time matrices: no static argument bounds it; P20 decides what is handed to the solver and done with its answer")
prop("N02", "The optimisers reach a feasible optimum",
     "Optimisation results satisfy their constraints and no feasible design is better by more than the tolerance.", ["inputs"], "all panels",
     "global optimality over all panels", OPT, [("minimize call", OPT[0])],
     na="depends on the run-time behaviour of SLSQP; P22 and P23 decide the problem handed to it")
prop("N03", "Buckling factors converge from above as terms are added",
     "Adding terms never raises the lowest buckling factor and the factors converge to the exact plate solution.", ["inputs", "configurations"], "all plates and numbers of terms",
     "a limit over all term counts", [STRUCTURE], [("Ritz basis", STRUCTURE)],
     na="an analytic statement about eigenvalues of run-time matrices; its structural premises (nested function sets, exact energies) are decided by P13, P16, P17 and P19")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                            **({"observe_at": p["observe"]} if p["observe"] else {})}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["pid"], "reason": p["na"]})
        elif os.path.exists(os.path.join(ROOT, "checks", p["pid"].lower() + ".py")):
            checks.append({"property": p["pid"], "quick_cmd": f"python3-vt checks/run.py {p['pid']}",
                           "thorough_cmd": f"VERIF_TIER=thorough python3-vt checks/run.py {p['pid']}",
                           "evidence_file": f"evidence/{p['pid']}.json", "technique": p["technique"], "level": "other", "level_note": p["note"]})
        else:
            na.append({"property": p["pid"], "reason": "check not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import numpy'", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(checks), "checks", len(na), "not applicable")


main()
