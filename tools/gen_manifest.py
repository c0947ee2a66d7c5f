#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="deterministic simulation with fault injection: "
note_common=(" Seeded search, so absence of a violation is evidence for the explored runs only. Trusted: the simulator and its"
 " reference models, std::sync::Arc / Rc, and that switching tasks only at reference-count operations and user callbacks"
 " (where the code touches shared state or leaves the crate) exposes every sequentially consistent interleaving that matters.")
C={
"C01":("seeded clone trees over tasks, mailboxes and a shared board; isolation oracle re-reads handles the operation did not touch","Every handle is compared with its own independent model after operations on other handles, including operations preempted, faulted or killed half-way."),
"C02":("seeded histories with sharing, faults and interleavings checked against a std BTreeMap model (refinement)","Each call's result, and the contents afterwards, are compared with std::collections::BTreeMap for AvlMap, BTreeMap of several node widths and the fixed map."),
"C03":("seeded histories over pairs of sets that share structure, checked against a std BTreeSet model (refinement)","Each call's result and contents, incl. lazy and consuming algebra and the subset predicates, are compared with a model."),
"C04":("seeded histories over clone trees of stacks, checked against vectors (refinement)","Each call's result and contents are compared with independent vectors; out-of-range panics are part of the model."),
"C05":("balance, order, length, lookup-cost and memory invariants evaluated on every state reached by seeded fault-free and faulted runs","Uses the crate's own structural check plus independent bounds on comparisons per lookup and heap bytes per entry (loose: they separate logarithmic from linear)."),
"C06":("element ledger and poisoning allocator under seeded schedules, abandoned iterators, task deaths","Every element instance has a ledger entry; each use, clone and drop is checked; at the end of a run ledger and tagged heap must be empty."),
"C07":("fault injection: a panic in the n-th user callback of an operation, at seeded points","After each injected panic all other handles are compared with their models, ledger and heap must balance, contents of the faulted handle must come from its inputs, and clear() must restore it."),
"C08":("seeded front/back walks, abandonment and consumption of every iterator, checked step by step against a deque model","len, size_hint, fusedness and items are compared at every step."),
"C09":("clone counters on every key and value under seeded sharing patterns, against path-length bounds","Bounds are zero for clones, reads and sole owners, and a constant multiple of tree height for a single-key update of shared structure."),
"C10":("simulated deserializer: sorted/unsorted/duplicate streams, wrong size hints, stream errors at seeded positions","Result compared with inserting in order; largest single allocation bounded by the entries actually read; errors must be returned and everything read released."),
"C11":("seeded preemptive scheduling of 2-5 tasks at every reference-count operation and callback, with stalls and task deaths; per-task linear histories checked against sequential models","Real threads, one running at a time under a seeded baton scheduler; bounded-step progress is checked. Weak-memory effects below Arc are out of reach (C18)."),
"C12":("canonical rebuild oracle for Eq/Ord/Hash/Debug over states reached by seeded histories","Comparisons are checked against comparing model contents, hash and Debug against a freshly built collection of equal contents."),
"C13":("fault injection in source iterators, closures and loops over mutable iterators at seeded positions","Contents after the fault must be exactly the old ones plus the completed prefix of effects."),
"C14":("simulated serializer that records the event stream and fails at seeded positions","The stream must be len + ascending entries, an error is returned and followed by silence, the collection is unchanged."),
"C15":("large collections run on tasks with small, fixed call stacks, with deaths and abandoned iterators; overflow kills the worker and is reported","Up to hundreds of thousands of elements on 256 KiB class stacks; a stack overflow or crash of the worker is the violation."),
"C16":("seeded ranges (all bound kinds) walked from both ends, against the model's range","Items, hints, fusedness, effects of writes and the number of comparisons to set up are compared at every step."),
}
m=dict(version=1,
 setup_cmd="bash ./setup.sh",
 hooks=dict(guard="cfg(lcc_sim)",enable="RUSTFLAGS='--cfg lcc_sim' (set by /verif/build.sh); the simulator crate defines lcc_sim_arc_op",source_commits=["8cd5a51","bb391ff"]),
 checks=[dict(property=i,quick_cmd=f"bash ./check.sh {i} quick",thorough_cmd=f"bash ./check.sh {i} thorough",
   evidence_file=f"evidence/{i}.json",technique=T+t,level="exploration",level_note=n+note_common) for i,(t,n) in C.items()],
 not_applicable=[
  dict(property="C17",reason="Auto traits are decided by the compiler for all programs at once; there is no execution, schedule or fault for a simulator to explore, and a violation is a program that fails (or wrongly succeeds) to compile."),
  dict(property="C18",reason="The crate contains no atomics of its own: ordering is entirely inside std::sync::Arc, below the simulator's seam. A baton scheduler executes sequentially consistent interleavings only and cannot produce weak-memory reorderings."),
 ],
 notes="See DESIGN.md. Replay a violation with: target/hooked/debug/lccsim replay <file>")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
