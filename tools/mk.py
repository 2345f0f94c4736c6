"""Writes properties.jsonl and MANIFEST.json from the entries below (only properties whose check exists are listed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "numerous/engine/model/"
S = "numerous/engine/system/"
U = "numerous/utils/"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                                hook_needed=None)),
              technique, note))


prop("C01", "Equations compute what their Python source says",
     "For every system of items with equations, evaluating the assembled model at any time and state gives each variable and "
     "each state derivative the value that running the equations' own Python source, in dataflow order, gives it. This includes "
     "conditionals, conditional expressions, tuple assignment, augmented assignment, locals, lists, module functions and "
     "constants, functions of the instance, inherited equations and global variables including the time.",
     ["programs", "inputs"], "all systems and equation bodies in the supported statement subset, all evaluation points",
     "The tests assemble a few dozen fixed equations; the translator rewrites source through a graph and back, so any unforeseen "
     "combination of statements can be mistranslated without an error.",
     [M + "ast_parser/ast_visitor.py", M + "ast_parser/equation_from_graph.py", M + "ast_parser/parser_ast.py",
      M + "lowering/ast_builder.py", M + "lowering/equations_generator.py", M + "graph_representation/graph.py",
      "numerous/multiphysics/equation_base.py", "numerous/multiphysics/equation_decorators.py"],
     [("source to graph", M + "ast_parser/ast_visitor.py:AstVisitor"),
      ("graph to function", M + "ast_parser/equation_from_graph.py:function_body_from_graph"),
      ("argument binding per instance", M + "lowering/equations_generator.py:_process_equation_node"),
      ("dataflow order", M + "graph_representation/lower_graph.py:topological_sort")],
     "random program generation against a reference interpreter (Hypothesis, shrinking)",
     "exploration of thousands of generated systems per run; trusts Python's own evaluation of the same source",
     observe=["Model.numba_model.func", "read_variables"])

prop("C02", "The LLVM backend and the interpreted backend agree",
     "A model assembled with the compiled backend gives every variable and derivative the same value as the same model assembled "
     "with the interpreted backend, at every evaluation point, also after variables were written. The two code generators agree "
     "on every sequence of calls, set calls and mappings.",
     ["programs", "inputs"], "all systems, all programs of calls, set calls and mappings, all evaluation points",
     "Tests run fixed systems; agreement has to hold for each code shape (order of set calls and scalar calls, states read by set "
     "equations, repeated targets).",
     [M + "lowering/llvm_builder.py", M + "lowering/ast_builder.py", M + "lowering/equations_generator.py",
      M + "lowering/utils.py"],
     [("LLVM code generation", M + "lowering/llvm_builder.py:LLVMBuilder"),
      ("Python code generation", M + "lowering/ast_builder.py:ASTBuilder")],
     "differential random program generation, both backends and a reference (Hypothesis, shrinking)",
     "exploration; the simulation class itself is not compiled (numba jitclass does not build here), the kernels are",
     observe=["generated kernel, read and write functions"])

prop("C03", "A mapped variable always carries its sources",
     "After an evaluation at any point, a variable assigned from another variable equals it, and a variable to which sources were "
     "added equals the sum of exactly these sources (plus the value its own equation gives it). This holds through chains, across "
     "namespaces and hierarchy levels, and does not depend on the order in which the mappings were declared.",
     ["configurations", "inputs"], "all acyclic mapping graphs over all variables of all systems; all evaluation points",
     "Mapping graphs are combinatorial; the tests hold a handful of fixed ones.",
     [S + "namespace.py", "numerous/engine/variables.py", M + "graph_representation/mappings_graph.py",
      M + "lowering/equations_generator.py", M + "model.py"],
     [("mapping registration", "numerous/engine/variables.py:MappedValue"),
      ("sum nodes and temporaries", M + "graph_representation/mappings_graph.py:create_assignments"),
      ("mapping code", M + "lowering/equations_generator.py:_process_sum_node")],
     "random mapping graphs against a reference, and a declaration-order metamorphic relation (Hypothesis)",
     "exploration; cyclic mapping graphs are outside the domain (the engine only warns about them)",
     observe=["read_variables after an evaluation"])

prop("C04", "A set of items computes what the same items registered one by one compute",
     "Registering items of one class as a set instead of a list changes no variable's value and no derivative, for every set size, "
     "class, and mapping between set members and other variables. Several sets of the same class stay independent.",
     ["configurations", "inputs"], "all set sizes, classes with one or more namespaces and equations, mappings into and out of sets",
     "The tests use one set with one fixed class and a single equation; vectorised evaluation relies on variable layout.",
     [S + "subsystem.py", S + "namespace.py", "numerous/engine/variables.py", M + "lowering/equations_generator.py",
      M + "graph_representation/mappings_graph.py", M + "ast_parser/parser_ast.py"],
     [("set namespaces", S + "subsystem.py:ItemSet"), ("set call generation", M + "lowering/ast_builder.py:add_set_call"),
      ("set mappings", M + "lowering/equations_generator.py:_process_sum_node")],
     "differential (set versus list) and reference-model random generation (Hypothesis)",
     "exploration; equations of sets do not use global variables (unsupported)",
     observe=["read_variables after an evaluation"])

exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None

have = [p for p in P if os.path.exists(os.path.join(HERE, "props", p[0]["id"].lower() + ".py"))]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in have:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[
    dict(property=p["id"], quick_cmd=f"./run.sh {p['id']}", thorough_cmd=f"./run.sh {p['id']} --tier thorough",
         evidence_file=f"evidence/{p['id']}.json", technique=t, level="exploration", level_note=n) for p, t, n in have],
    not_applicable=[],
    notes="Checks run /repo's working tree in the interpreter of /opt/venv; no hooks were needed.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(have), "properties")
