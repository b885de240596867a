#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

BT = ["include/blockTensor/btensor.h", "sources/btensor.cpp", "include/blockTensor/flat_map.h"]

prop("C01", "Block tensor histories agree with ordinary dense tensors",
 "After any sequence of block-tensor operations (creation, element-wise arithmetic with broadcasting, contraction, permutation, reshaping, views, index assignment, conjugation, reductions, comparisons), in which any operations may also have failed part-way and been retried, every block tensor denotes exactly the dense tensor that the same completed operations give on ordinary dense tensors, whatever subset of the allowed blocks is actually stored. A block that is not stored means zeros. Gradients traced through an operation agree with those of the dense operation for every stored block. (Element-wise operations for which two zeros do not give zero - division by a tensor, powers, comparisons with a true result on zeros - act on the stored blocks only, and are meant for tensors that store every allowed block; an in-place operation whose operand has a larger rank is refused.)",
 ["histories", "inputs", "fault_sequences"], "every history of operations over a pool of tensors with any conserved quantities (Z, cyclic, composite), any section layout and any stored-block pattern, with allocation or kernel failures injected into any of the operations",
 "the tests call each operation once on one or two hand-made shapes with all blocks present; sparsity patterns, chains of operations and failures in between are never reached",
 BT + ["sources/tensorgdot.cpp", "include/tensorgdot.h"],
 [("merge of the block lists in add", "sources/btensor.cpp btensor::add_, flat_map::merge"), ("broadcast", "btensor::broadcast_operation"), ("contraction", "btensor::tensordot / tensorgdot"), ("reshape", "btensor::reshape / reshape_as")],
 [("blocks_list", "ordered map from block index to dense block", "include/blockTensor/btensor.h")], ["to_dense()", "blocks()"])

prop("C02", "Every block tensor is structurally valid and obeys its selection rule",
 "After every public block-tensor operation, whether it succeeded or failed, each tensor's stored blocks are unique, ordered, inside the section grid, allowed by the selection rule and exactly of the size their sections prescribe, and the library's own validity check reports no error. The section sizes, conserved quantities and selection rule of a result are the ones the operation prescribes: products add selection rules, conjugation inverts all quantities, permutation reorders them, reshaping fuses them, shifting one dimension and the rule together keeps the same blocks allowed. Requests that no valid tensor could answer (contractions and products of tensors whose quantities or section sizes don't match, blocks, elements or dimensions that don't exist, parts or values that don't fit together, impossible reshapes, item() of several elements) are refused with an exception and without any effect.",
 ["histories", "inputs", "fault_sequences"], "every history of operations, every conserved group, every failure point inside an operation",
 "tests check validity after a few single operations with C<5> only; nothing checks it after failed operations or long chains",
 BT + ["include/Conserved/Composite/cquantity.h", "include/Conserved/Composite/quantity_vector.h"],
 [("validity check", "btensor::check_tensor"), ("block_conservation_rule_test", "sources/btensor.cpp"), ("cval bookkeeping", "btensor::shape_from, cval_shift_, inverse_cvals_, conj")],
 [("sections_by_dim, sections_sizes, c_vals, selection_rule", "the structural description of a tensor", "include/blockTensor/btensor.h")], ["check_tensor", "section_sizes_cqtts", "selection_rule"])

prop("C03", "A failed tensor operation has no effect, leaks nothing, and can be retried",
 "If a memory allocation or a dense kernel fails inside a block-tensor or linear-algebra operation that returns a new tensor, the caller gets an ordinary exception, all operands keep exactly their previous value, no memory stays allocated, and repeating the call afterwards gives exactly the undisturbed result. An in-place operation or assignment that fails likewise leaks nothing and leaves its target a valid tensor of its previous shape that can still be used, overwritten and destroyed, and leaves all its other operands untouched.",
 ["fault_sequences", "histories"], "every failure point (k-th allocation, k-th tensor storage allocation, k-th dense kernel call) inside every operation of every history",
 "no test makes anything fail inside an operation; every allocation in the suite succeeds",
 BT + ["sources/btensor_linalg.cpp", "sources/tensorgdot.cpp"],
 [("results are built in fresh block lists", "btensor::new_block_list_apply_to_all_blocks"), ("RAII of blocks and quantity vectors", "flat_map, any_quantity_vector"), ("copy and swap assignment", "btensor::operator=")],
 (), ["live allocations", "operand values before/after"])

prop("C04", "Results of tensor arithmetic are independent of their operands",
 "A block tensor returned by an out-of-place arithmetic, contraction, comparison or decomposition operation shares no storage with its operands: modifying the result in place never changes an operand and modifying an operand never changes the result, through any later history. No out-of-place operation, including those taking an expiring operand (which may be a view of a tensor that stays), modifies a tensor the caller can still observe. A block tensor built from a dense tensor shares no storage with it.",
 ["histories", "inputs"], "all interleavings of out-of-place operations and in-place modifications over a pool of tensors, for every stored-block pattern",
 "the tests check values right after one operation; aliasing only shows when a result or an operand is later modified, and only for blocks present in one operand",
 BT + ["sources/btensor_linalg.cpp"],
 [("clone of blocks taken from one operand only", "btensor::add / broadcast_operation"), ("in place operations", "btensor::add_, mul_, div_ ...")], (), ["data of operands and results"])

prop("C05", "The sorted block map behaves as an ordered map under any history",
 "Through any sequence of insertions, range insertions and merges with collision handlers, erasures, lookups, copies, moves and swaps, the sorted map that stores blocks has the same keys, values, order, size and lookup results as a textbook ordered map, each handler being called exactly once per colliding or newly added element and for no other. If an allocation or a user-supplied handler throws in the middle, the map remains a valid ordered map holding no key that neither side contained and losing none of its own keys.",
 ["histories", "inputs", "fault_sequences"], "all operation sequences, key orders (sorted, unsorted, duplicated), hints, and exception points in handlers and allocations",
 "tests exercise six fixed insertion patterns with no failing handler and no erase or lookup of absent keys",
 ["include/blockTensor/flat_map.h"],
 [("sorted vector with binary search", "flat_map::find / insert / emplace"), ("merge with collision handlers", "flat_map::insert(first,last,collision,nocollision), merge")], [("content", "sorted vector of pairs", "include/blockTensor/flat_map.h")], ["iteration", "find/at/contains"])

prop("C06", "Conserved-quantity lists behave as vectors of one quantity type",
 "Through any sequence of insert, erase, assign, resize, push, pop, reserve, permute, reverse, copy, move, swap, slice and element-wise group operations, the type-erased list of conserved quantities holds the same values as a plain vector put through the same sequence, and single type-erased quantities obey value semantics and the group laws. Mixing different conserved-quantity types or an allocation failure in the middle raises an exception, leaks nothing, and leaves every list valid.",
 ["histories", "inputs", "fault_sequences"], "all operation sequences over all conserved groups and composites, any failure point, any type mismatch",
 "tests call each member once on a three-element list and never with a mismatched type or a failing allocation",
 ["include/Conserved/Composite/quantity_vector.h", "include/Conserved/Composite/quantity_vector_impl.h", "include/Conserved/Composite/cquantity.h", "include/Conserved/Composite/quantity_impl.h", "include/Conserved/quantity.h", "sources/any_quantity.cpp", "sources/groups.cpp"],
 [("polymorphic value semantics", "any_quantity_vector / any_quantity clone"), ("type check on mixing", "dynamic casts in quantity_vector / quantity")], (), ["elements read back"])

prop("C07", "Gauge moves preserve the state and put the centre where it is reported",
 "Any sequence of orthogonality-centre moves on a dense or block MPS, including moves interrupted by a failure and resumed, leaves the represented quantum state unchanged up to rounding; every site the centre has passed is an isometry towards the reported centre. Compressing the bonds of a block MPO with no cutoff leaves the represented operator unchanged, and a move outside the chain is refused without any effect. Building a state or an operator takes chains that fit together as they are and refuses the others (wrong rank, neighbouring bonds that differ, a centre outside of the chain).",
 ["histories", "inputs", "fault_sequences"], "all move sequences on chains of any length, real or complex, any bond dimensions and sectors, with failures at any point inside a move",
 "one test moves the centre of one real MPS once and only checks orthogonality; state preservation under interrupted moves is never exercised",
 ["sources/MPT.cpp", "include/MPT.h"],
 [("svd and push of the remainder into the neighbour", "MPS::move_oc, bMPS::move_oc"), ("coalesce", "bMPO::coalesce")], [("orthogonality_center", "reported centre", "include/MPT.h")], ["dense state vector", "isometry defect of each site"])

prop("C08", "DMRG reports the true, variational energy of the state it returns",
 "Whenever dmrg returns, started from a random state of its own or from any non-zero state whose sites are isometries around its orthogonality centre, the returned energy equals the expectation value of the Hamiltonian in the returned state (up to the requested truncation), the state is normalised with its orthogonality centre where it says it is, bond dimensions respect the requested maximum (a degenerate multiplet of block states may exceed it rather than be cut), and the energy is never below the exact ground-state energy of the Hamiltonian (in the state's symmetry sector). Without truncation the energy never rises from sweep to sweep nor above the initial state's energy, and it stops exactly when successive energies meet the convergence criterion or the iteration limit is reached. A call that is refused (a chain of fewer than two sites, a state and a Hamiltonian of different lengths, a null state) throws and leaves its arguments unchanged.",
 ["inputs", "configurations", "histories"], "all hermitian MPO Hamiltonians, initial states, chain lengths, initial centres, option settings and repeated restarts from the result",
 "the stable tests only require that dmrg does not throw on one random MPO; no energy is compared with anything",
 ["sources/dmrg.cpp", "include/dmrg.h", "include/dmrg_options.h"],
 [("two-site update by one Lanczos step", "two_sites_update, one_step_lanczos, eig2x2Mat"), ("environments", "generate_env, compute_left_env, compute_right_env"), ("sweep", "sweep, dmrg_impl")], [("Env", "partial contractions", "sources/dmrg.cpp")], ["returned energy", "returned state", "energies logged per sweep"])

prop("C09", "An interrupted DMRG run leaves usable data and can be resumed",
 "If a dmrg run is stopped at any point by an exception (thrown by a logger callback, a failed allocation or a failed dense kernel), the exception reaches the caller, the Hamiltonian is unchanged, nothing leaks, and the state is still a valid, normalisable MPS in its original symmetry sector whose energy is not above that of the last completed sweep. Calling dmrg again on that state works as on any other state, and its final energy is no higher than the last energy reported before the interruption.",
 ["crash_points", "fault_sequences", "histories"], "every interruption point: each logger callback, each allocation and each dense kernel call of a run, possibly several interruptions in a row",
 "no test interrupts dmrg; the try-free code relies on the order of assignments inside an update",
 ["sources/dmrg.cpp", "include/dmrg_logger.h", "sources/MPT.cpp"],
 [("order of the assignments in the two-site update", "dmrg_2sites_update::operator()"), ("gradient guard restoring options", "dmrg_gradient_guard")], (), ["exception", "Hamiltonian bytes", "state after interruption", "resumed run"])

prop("C10", "DMRG loggers see the exact progress of the run on the run's own clock",
 "During every dmrg run a logger is initialised exactly once before anything else, then told about every completed sweep exactly once, in order, starting from zero, with that sweep's energy and state, and is told about the end exactly once, with the step number and the energy of the last sweep, which is the energy returned. The sweep-time logger records for each sweep the elapsed time of that sweep alone, on a monotonic clock and however slow or stalled callbacks and other sweeps are, together with the middle bond dimension of that sweep.",
 ["schedules", "configurations", "histories"], "all run lengths, convergence points, option settings, clock behaviours (stalls, jumps forward, zero advance), loggers reused for several runs",
 "no test uses a logger that checks anything; elapsed times depend on the real clock, which tests cannot control",
 ["include/dmrg_logger.h", "sources/dmrg_logger.cpp", "sources/dmrg.cpp"],
 [("logger calls in dmrg_impl", "sources/dmrg.cpp"), ("elapsed time bookkeeping", "dmrg_log_sweeptime::it_log_all")], [("then, time_list, bond_list", "sweep-time log", "include/dmrg_logger.h")], ["sequence of callbacks", "time_list/bond_list"])

prop("C11", "Threads sharing read-only data or using separate data do not interfere",
 "When several threads concurrently run library operations that only read shared tensors, networks, quantity lists or Hamiltonians, or that work on data of their own, every thread obtains exactly the result it obtains when running alone, under any interleaving of the threads, and the shared data is unchanged.",
 ["schedules", "histories"], "all interleavings, at the granularity of basic blocks of library code, of two or three threads running contractions, arithmetic, decompositions, centre moves, state generation and dmrg",
 "the tests are single threaded",
 ["sources/btensor.cpp", "sources/btensor_linalg.cpp", "sources/MPT.cpp", "sources/dmrg.cpp", "include/blockTensor/btensor.h"],
 [("no mutable global or function-static state in operations", "whole library"), ("const operations do not modify blocks", "btensor const members")], (), ["results per thread", "shared operands"])

prop("C12", "Truncated decompositions are isometric, ordered and bounded in error",
 "For any tensor, split and truncation settings, the factors returned by svd and eigh (dense or block) reassemble the tensor with a squared error equal to the discarded weight, which does not exceed the tolerance unless the maximum size forces it; the singular vectors kept are orthonormal, singular values are non-negative, the number kept lies between the requested minimum (where available) and maximum, and no discarded value is larger than a kept one (a block decomposition keeps the values that are degenerate to rounding with the last kept one, even beyond the maximum, so that multiplets are not cut). Block decompositions keep the symmetry structure: the factors are valid block tensors whose product has the original shape, quantities and selection rule. A full decomposition completes the bases of every sector, one that asks for the values alone gives the same values and no vectors.",
 ["inputs", "histories", "fault_sequences"], "all tensors (any rank, split, sparsity, degenerate or zero spectra, real or complex), all tolerances and size limits, inside histories that reuse the factors and with failures inside a decomposition followed by a retry",
 "tests decompose a couple of full random tensors and check only shapes or reconstruction without truncation limits",
 ["sources/LinearAlgebra.cpp", "sources/btensor_linalg.cpp", "include/LinearAlgebra.h", "include/blockTensor/LinearAlgebra.h"],
 [("selection of kept values", "compute_last_index, compute_first_index_ascending, truncate"), ("block assembly", "compact_dense, svd/eigh on blocks, truncate_impl")], (), ["factors"])

prop("C13", "Random states honour their seed, shape and symmetry sector",
 "A random MPS has the requested length, physical dimensions and bond dimension, is non-zero, and - for block states - has every tensor valid and the total quantum number requested, and generation either succeeds so or throws without side effects when the physical space cannot reach the requested quantum number. With an explicit seed the structure of a block state depends only on the arguments and the seed: it does not depend on the entropy source, the clock, earlier calls, memory contents or other threads.",
 ["inputs", "configurations", "schedules", "fault_sequences"], "all lengths, bond dimensions, physical spaces, quantum numbers, seeds, entropy-source behaviours (constant, repeating, failing) and failure points",
 "tests generate a few states with one seed and check ranks; the entropy source is the real one",
 ["sources/MPT.cpp", "include/MPT.h"],
 [("generate_random_string", "sources/MPT.cpp"), ("random_bMPS_impl / random_MPS_impl", "sources/MPT.cpp")], (), ["tensors of the state"])

prop("C14", "Results do not depend on ambient process state",
 "The result, element type and precision of every library operation is determined by its arguments: it does not change with the previous contents of freshly allocated memory, with the process-wide default floating-point type at the time of the call (which another thread may change at any moment), with earlier operations, or with the clock; operations on single precision, double precision and complex tensors yield the corresponding type (for a real tensor combined with a complex number that is the type the dense library gives, which itself consults the default type).",
 ["schedules", "configurations", "histories"], "all operations on operands of an explicit element type, under every content of fresh memory and any sequence of changes of the global default type between (or during) calls",
 "the tests set the default type once and run with zeroed or recycled memory; uninitialised reads and default-type leaks give the right answer by luck",
 ["sources/btensor.cpp", "sources/btensor_linalg.cpp", "sources/LinearAlgebra.cpp", "sources/MPT.cpp", "sources/dmrg.cpp"],
 [("options carried by each tensor", "btensor::_options / TensorOptions passed to factories")], [("_options", "element type of a block tensor", "include/blockTensor/btensor.h")], ["values and dtype of results"])

prop("C15", "The symmetry sector of a state is never left",
 "A block MPS keeps its total quantum number, the validity of each of its tensors and the conserved quantities of its physical indices through any sequence of centre moves, scalings, copies, dmrg runs and interrupted or failed runs; its dense amplitudes outside the sector stay exactly zero.",
 ["histories", "fault_sequences", "crash_points"], "all histories of moves and dmrg runs with interruptions on block states of any sector and conserved group",
 "tests never read the quantum number of a state after an operation",
 ["sources/MPT.cpp", "sources/dmrg.cpp", "sources/btensor_linalg.cpp"],
 [("selection rule carried by the centre site", "bMPS::move_oc / svd on blocks"), ("block update", "dmrg_2sites_update")], (), ["selection rules", "dense amplitudes"])

prop("C16", "Model Hamiltonians equal their textbook definition",
 "The Heisenberg and Hubbard operators built for any couplings (real or complex, single or double precision, however weak) and any chain length of at least one site, with or without conservation laws, equal the textbook Hamiltonian on the full space, in the element type of the couplings; the local spin and fermion operators satisfy their algebra. A physical space whose charges are consistent with the model is accepted, an inconsistent one or a coupling that is not a scalar is refused. The sites of a Hamiltonian can be modified independently of each other and of any Hamiltonian built before or after, and a construction that fails (allocation, dense kernel) leaves no trace: the same request succeeds afterwards with the same result.",
 ["inputs", "histories", "fault_sequences"], "all couplings, lengths, conservation laws and local spaces, in histories that build, modify, fail and rebuild",
 "the tests build one three-site Heisenberg chain without conservation law",
 ["sources/models.cpp", "sources/operators.cpp", "include/models.h"], [("MPO tables", "Heisenberg_impl, Hubbard"), ("local operators", "pauli, fermions"), ("block form", "to_bMPO, from_basic_tensor_like, coalesce")], (), ["contracted operator on the full space"])
prop("C17", "Python bindings expose the same semantics as the C++ API",
 "Every operation reachable from Python gives the result of the C++ operation.",
 ["inputs", "programs"], "all Python programs over the bindings", "the bindings have no tests here and are not built in this environment",
 ["python_binding"], [("pybind11 wrappers", "python_binding")])
prop("C18", "Printing is complete and survives failures",
 "Printing a block tensor, dense tensor, conserved quantity or chain - to a string, a bounded buffer, an output stream or the standard output - always ends and shows the whole object: rank, selection rule, sections with their sizes and quantities, and every stored block at its position with all its values (of a complex tensor both parts), and nothing else; a line width given as format option of a dense tensor is honoured (up to the smallest width a column needs) and a meaningless option is refused. Printing never modifies the object. If an allocation, a dense kernel or the receiving stream fails in the middle, the caller is told (exception or stream state), what was already written is the beginning of the full text, nothing leaks, and printing again gives the full text, the same as before.",
 ["inputs", "histories", "fault_sequences"], "all objects (any rank, sparsity, element type, awkward values, lazily conjugated or negated tensors, empty and default constructed objects), all destinations, every failure point of allocations, dense kernels and the receiving stream",
 "one smoke test forces to_string to be instantiated; nothing reads the text or makes a stream fail",
 ["include/torch_formatter.h", "sources/torch_formatter.cpp", "include/blockTensor/btensor.h", "include/Conserved/quantity.h", "include/Conserved/Composite/quantity_impl.h", "include/Conserved/Composite/cquantity.h", "include/MPT.h"],
 [("fmt formatters", "include/torch_formatter.h, include/blockTensor/btensor.h fmt::formatter<btensor>"), ("print, to_string", "sources/btensor.cpp, sources/torch_formatter.cpp, sources/any_quantity.cpp")], (), ["text", "stream state"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
