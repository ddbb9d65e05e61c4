"""Single source for properties.jsonl and MANIFEST.json (python tools/meta.py writes both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def m(name, where):
    return {"name": name, "where": where}


D = "torch_struct/distributions.py"
H = "torch_struct/helpers.py"
LC = "torch_struct/linearchain.py"
SM = "torch_struct/semimarkov.py"
DT = "torch_struct/deptree.py"
CRF = "torch_struct/cky_crf.py"
CKY = "torch_struct/cky.py"
SR = "torch_struct/semirings/semirings.py"
SA = "torch_struct/semirings/sample.py"
CP = "torch_struct/semirings/checkpoint.py"
SP = "torch_struct/semirings/sparse_max.py"
AR = "torch_struct/autoregressive.py"
AL = "torch_struct/alignment.py"

SIZES = (
    "every real value of every potential, for each batch size, sequence length, per-element length vector, "
    "label/width count, memory layout, dtype and gradient mode of a stated finite list"
)
FEW = "The tests draw a few random tensors of fixed tiny shapes and compare one value; they cannot quantify over the potentials"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, na=None, note=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], na=na, note=note, thorough=thorough))


prop(
    "C01",
    "Chain and segmental log-partition equals the sum over all structures",
    "For a linear-chain or semi-Markov distribution, the log-partition of every batch element equals the log of the sum, over every label sequence (every labelled segmentation) of that element's length, of the exponentiated sum of its potentials. "
    "This holds for any potentials, number of labels, maximum width, sequence length and mix of per-element lengths, and potentials beyond an element's length have no effect.",
    ["inputs", "configurations"],
    SIZES,
    FEW + ", over lengths that are not powers of two, over mixed lengths, or over widths larger than the sequence.",
    [LC, SM, H, SR, D],
    [m("parallel scan by repeated semiring matrix product", LC), m("scan over (width, label) products", SM), m("length mask", LC)],
    ["partition of the distribution object"],
)
prop(
    "C02",
    "Projective dependency log-partition equals the sum over all trees",
    "For a projective dependency distribution (labelled or not, single-root or multi-root), the log-partition of every batch element equals the log of the sum, over every projective dependency tree on that element's words, of the exponentiated sum of its arc and root scores. "
    "Scores of arcs touching words beyond an element's length have no effect, and the single-root option counts exactly the trees with one root.",
    ["inputs", "configurations"],
    SIZES,
    FEW + ", mixed lengths, labels and both root modes together.",
    [DT, H, SR, D],
    [m("Eisner chart recursion", DT), m("root arcs moved from the diagonal and length mask", DT)],
    ["partition of the distribution object"],
)
prop(
    "C03",
    "Span-tree and context-free-grammar log-partition equals the sum over all trees",
    "For a span-tree distribution and for a sentence grammar, the log-partition of every batch element equals the log of the sum, over every labelled binary tree (every derivation) of that element's length, of the exponentiated sum of its span scores (of its root, rule and terminal scores, counted with multiplicity). "
    "This holds for every sentence length, including length one for span trees, and mix of lengths in the batch.",
    ["inputs", "configurations"],
    SIZES,
    FEW + ", grammars with several symbols, or mixed lengths.",
    [CRF, CKY, H, SR, D],
    [m("width-batched inside recursion", CRF), m("width-batched inside recursion over rules", CKY)],
    ["partition of the distribution object"],
)
prop(
    "C04",
    "Non-projective partition and marginals satisfy the matrix-tree theorem",
    "For a non-projective dependency distribution, single- or multi-root, the log-partition equals the log of the sum over all spanning arborescences of that element's words, and the marginals, and likewise the gradient of the log-partition, equal the probability of each arc (root choices on the diagonal), up to the small smoothing constant the library adds to arc weights. "
    "Entries beyond an element's length have probability zero and do not influence the result.",
    ["inputs", "configurations"],
    SIZES,
    "The tests compare one random score table of fixed size in float arithmetic; the determinant identity must hold for every score table and every mix of lengths.",
    [DT, D],
    [m("Laplacian, log-determinant and inverse", DT)],
    ["partition and marginals of the distribution object"],
)
prop(
    "C05",
    "Marginals are the exact part probabilities under the distribution",
    "For linear-chain, semi-Markov, projective dependency, span-tree and grammar distributions, each marginal equals the total probability of the structures that contain that part (the expected number of uses, for grammar rules), with the indexing of the log-potentials. "
    "Parts outside an element's length have marginal zero, and the result has the shape of the potentials.",
    ["inputs", "configurations"],
    SIZES,
    FEW + "; marginals of one random instance agree with enumeration in one test per model, without lengths.",
    [H, LC, SM, DT, CRF, CKY, SR, D],
    [m("gradient of the log-partition with respect to the potentials", H), m("re-arrangement of gradients to the input layout", DT)],
    ["marginals of the distribution object"],
)
prop(
    "C06",
    "Max and argmax return the best structure and its score",
    "For every distribution with a dynamic program, the max is the largest total score of any valid structure of that element's length, and the argmax is the indicator of one single valid structure attaining it (also when several tie, where any one tied structure may be returned). "
    "Padding positions of the argmax are zero.",
    ["inputs", "configurations"],
    SIZES,
    FEW + "; which structure wins partitions the input space into regions that random tests barely visit.",
    [H, LC, SM, DT, CRF, CKY, SR, D],
    [m("max semiring and its subgradient", SR), m("marginals by differentiation", H)],
    ["max, argmax and mode of the distribution object"],
)
prop(
    "C07",
    "K-best returns the k highest-scoring distinct structures in order",
    "For every k, the k-max values are the k largest structure scores in non-increasing order, and the top-k events are indicators of k distinct valid structures with exactly those scores in that order. "
    "When fewer than k structures exist, the surplus scores are at most the library's semiring zero (-1e5 or lower) plus bounded potentials, so they are recognisably not real structures.",
    ["inputs", "configurations"],
    SIZES + ", and k up to more than the number of structures",
    FEW + "; the ordering and distinctness claims concern every relative order of the scores.",
    [SR, H, LC, SM, DT, CRF, CKY, D],
    [m("k-max semiring sum and product", SR), m("one gradient per rank", H)],
    ["kmax and topk of the distribution object"],
)
prop(
    "C08",
    "Entropy equals the Shannon entropy of the distribution over structures",
    "For linear-chain, semi-Markov, projective dependency, span-tree and grammar distributions, the entropy of every batch element equals minus the sum over its structures of probability times log-probability. "
    "It depends only on the part of the potentials inside the element's length.",
    ["inputs", "configurations"],
    SIZES,
    FEW + " or mixed lengths; one random instance is compared with enumeration.",
    [SR, D, H, LC, SM, DT, CRF, CKY],
    [m("entropy expectation semiring", SR)],
    ["entropy of the distribution object"],
)
prop(
    "C09",
    "Cross-entropy and KL divergence between two distributions are exact",
    "For two distributions of the same kind and shape (linear-chain, semi-Markov, projective dependency, span-tree), the cross-entropy equals minus the expected log-probability of the second under the first, and the KL divergence equals cross-entropy minus entropy. "
    "Neither exchanges the roles of the two distributions.",
    ["inputs", "configurations"],
    SIZES + ", for both distributions independently",
    FEW + " of both arguments; the existing comparison exercises the semirings on single random instances.",
    [SR, D, H, LC, SM, DT, CRF],
    [m("cross-entropy and KL expectation semirings", SR)],
    ["cross_entropy and kl of the distribution object"],
)
prop(
    "C10",
    "Samples are valid structures drawn with exactly the model's probability",
    "Every sample of a linear-chain, semi-Markov, projective dependency or span-tree distribution is the 0/1 indicator of one valid structure of that element's length, in sample_shape x batch x event layout. "
    "The probability that a given structure is returned equals its probability under the distribution, separate samples of one call are independent, and this is so for any number of samples. "
    "The sums of the two sampling semirings, along any dimension of a tensor, have gradients that pick one entry of every vector along it with its softmax probability, independently.",
    ["inputs", "configurations"],
    SIZES + ", all outcomes of the random draws",
    "The tests compare empirical frequencies of one instance within loose tolerance; exact probabilities and independence need all draw outcomes and all potentials.",
    [SA, D, H, LC, SM, DT, CRF],
    [m("backward sampling with bit-packed samples", SA), m("unpacking of the samples", D)],
    ["sample of the distribution object", "gradients of the sampling semirings' sums"],
)
prop(
    "C11",
    "Log-probability of an event is its score minus the log-partition",
    "For any valid event of a linear-chain, semi-Markov, projective dependency or span-tree distribution, of any sample and batch shape, the log-probability equals the sum of the potentials of its parts minus that batch element's log-partition, so the probabilities of all structures sum to one. "
    "Leading sample dimensions are preserved and each event is paired with its own batch element; the integer or float type of the event does not matter.",
    ["inputs", "configurations"],
    SIZES + ", and every valid event",
    FEW + " and every event; only whole-space sums of one instance are sampled.",
    [D, H, LC, SM, DT, CRF],
    [m("score of an event", H), m("log-probability", D)],
    ["log_prob of the distribution object"],
)
prop(
    "C12",
    "Batch elements are independent and padding never matters",
    "Every query result for one batch element equals the result of querying a batch holding only that element cut to its own length: the other elements, the position in the batch and the potentials in the padding have no influence. "
    "This covers partition, marginals, max, entropy and k-best of the distributions that accept lengths.",
    ["inputs", "configurations"],
    SIZES + "; the padding values are symbolic too",
    FEW + " of the padding; a non-interference claim relates all pairs of runs, and the tests only run a few random ones.",
    [LC, SM, DT, CRF, CKY, H, D],
    [m("length masks of each dynamic program", LC)],
    ["all queries of the distribution objects, with lengths"],
)
prop(
    "C13",
    "Compact and event representations are inverse to each other",
    "For label sequences (chains, two or more positions), segmentations and unlabelled dependency head lists, converting the compact form to an event gives exactly the indicator of that structure over the positions inside each element's length, and converting back returns the compact form. "
    "For every event that is a valid structure, converting to compact and back returns the same event.",
    ["inputs", "configurations"],
    "every label sequence, segmentation and head list (the integers are symbolic) for each size and length vector of a stated finite list",
    "The tests round-trip a few enumerated structures without lengths.",
    [LC, SM, DT, D],
    [m("part indicator construction and extraction", LC), m("segment construction and extraction", SM), m("root re-indexing", DT)],
    ["to_event and from_event of the distribution objects"],
)
prop(
    "C14",
    "Count equals the number of structures the potentials allow",
    "For linear-chain, semi-Markov, dependency (projective) and span-tree distributions, the structure count of every batch element equals the number of valid structures of its length none of whose parts has potential minus infinity. "
    "Finite potential values do not change the count.",
    ["inputs", "configurations"],
    SIZES + "; which potentials are minus infinity is symbolic",
    "The tests do not quantify over the pattern of forbidden parts.",
    [D, SR, H, LC, SM, CRF],
    [m("counting semiring on indicator potentials", D)],
    ["count of the distribution object"],
)
prop(
    "C15",
    "HMM and segmental HMM adapters preserve the joint log-probability",
    "For a hidden Markov model built from initial, transition and emission log-probabilities and any observation sequence, the score of every hidden state sequence equals the joint log-probability of states and observations, so its partition is the observation likelihood. "
    "The segmental adapter gives every segmentation the sum of its initial, transition, duration and emission terms as documented, for shared or per-element initial tables.",
    ["inputs", "configurations"],
    "every table entry and every observation sequence (both symbolic) for each size of a stated finite list",
    "The tests build one or two random models and compare a single likelihood.",
    [LC, SM, D],
    [m("edge score construction from model tables", LC), m("segment score construction", SM)],
    ["the HMM distribution; the segmental adapter"],
)
prop(
    "C16",
    "Semiring operations obey the laws the dynamic programs rely on",
    "For the counting, log, max, k-max, entropy, cross-entropy and KL semirings: addition is associative and commutative with the declared zero, multiplication is associative with the declared one, multiplication distributes over addition, and the matrix product and dot product equal the sums of products they denote, including broadcast dimensions. "
    "Conversion into and out of the semiring is lossless.",
    ["inputs", "configurations"],
    "every value of every operand element for each operand shape of a stated finite list",
    "The tests multiply a few random matrices per semiring.",
    [SR],
    [m("semiring sum, times, matmul, dot, convert", SR)],
    ["the exported semiring classes"],
)
prop(
    "C17",
    "Checkpointed and sharded semirings equal the plain semiring",
    "Wrapping a semiring for checkpointing, or for sharded checkpointing with any shard size, changes neither the values nor the gradients of matrix products and of whole distributions computed with it, including operands with broadcast dimensions and sizes around the sharding thresholds. "
    "Only memory use may differ.",
    ["inputs", "configurations"],
    "every operand value and every incoming gradient for each operand shape, shard size and threshold of a stated finite list",
    "The tests compare one or two random products per wrapper.",
    [CP, SR],
    [m("recompute in backward", CP), m("chunked accumulation and gradient scatter", CP)],
    ["matrix product of the wrapped semirings and its gradients"],
)
prop(
    "C18",
    "Autoregressive log-probability is the sum of next-token log-probabilities",
    "The log-probability of a sequence, given as one-hot events or token indices, equals the sum over positions of the model's normalised (or raw, when normalisation is off) log-score of that token given the start token, the preceding tokens and that batch element's initial state. "
    "Sample and batch dimensions are kept and never mixed.",
    ["inputs", "configurations", "programs"],
    "every table of next-token logits (symbolic) of a history-dependent model and every sequence, for each size of a stated finite list",
    "The tests use one random recurrent network and compare a few probabilities.",
    [AR],
    [m("teacher-forced scoring", AR)],
    ["log_prob of the autoregressive distribution"],
)
prop(
    "C19",
    "Greedy and beam search return what their search procedure defines",
    "Greedy search returns, for each batch element, the sequence that takes the best next token at each step, its total score and the per-step scores. "
    "Beam search of width K returns the K sequences, best first and distinct, that step-by-step pruning to the K best prefixes yields, carrying each prefix's own model state; with K no smaller than the number of prefixes these are the globally best sequences. "
    "Greedy search with soft tokens gives the model, after the start token, the softmax of alpha times the scores of each step, and returns these scores, their path of maxima and its total.",
    ["inputs", "configurations", "programs"],
    "every table of next-token logits (symbolic) of a history-dependent model, for each size and beam width of a stated finite list",
    "Which prefix survives depends on every ordering of the logits; the tests run one random network.",
    [AR, SR],
    [m("beam expansion, pruning and state re-indexing", AR), m("sparse k-max sum", SR)],
    ["greedy_max, greedy_tempmax and beam_topk of the autoregressive distribution"],
)
prop(
    "C20",
    "Autoregressive samples follow the model's sequential distribution",
    "Every autoregressive sample is a one-hot sequence whose probability of being drawn is the product of the model's normalised next-token probabilities along the sampled prefix, with each sample and batch element advancing its own state. "
    "Sampling without replacement returns distinct sequences.",
    ["inputs", "configurations", "programs"],
    "every table of next-token logits (symbolic) of a history-dependent model and every outcome of the draws, for each size of a stated finite list",
    "The tests only look at shapes and scores of a few random draws.",
    [AR],
    [m("ancestral sampling", AR), m("Gumbel-perturbed beam search", AR)],
    ["sample and sample_without_replacement of the autoregressive distribution"],
)
prop(
    "C21",
    "Queries neither disturb inputs nor depend on history or other objects",
    "The answer to a query depends only on the potentials, lengths and options of its own distribution: not on which other queries ran before, on other distribution objects being created or queried, or on the gradient mode. "
    "No query changes the values of the potentials or lengths passed in.",
    ["histories", "inputs", "configurations"],
    "every potential value, for each ordered sequence of two or three queries/constructions of a stated finite list",
    "The tests query each object once, in one order.",
    [D, H, LC, SM, DT, CRF, CKY],
    [m("cached lazily computed queries", D), m("per-object options", D), m("masked copies instead of in-place edits", LC)],
    ["query results and argument tensors before and after"],
)
prop(
    "C22",
    "Gumbel-CRF relaxations return valid structures for every noise outcome",
    "For every outcome of the noise and every positive temperature, the Gumbel-CRF sample of a distribution is the 0/1 indicator of one valid structure of each element's length. "
    "Every decision uses noise of its own, so each structure is returned with exactly its probability under the distribution; the same holds for the Gumbel-max semiring. "
    "The sums of both semirings, along any dimension of a tensor, pick one entry of every vector along it in the same way.",
    ["inputs", "configurations"],
    SIZES + ", every noise value",
    "The tests run it on one random instance.",
    [SA, D, H],
    [m("perturbed argmax in the backward pass", SA)],
    ["gumbel_crf of the distribution object", "gradients of the Gumbel semirings' sums"],
)
prop(
    "C23",
    "The sparsemax semiring projects exactly onto the simplex",
    "The gradient of the sparsemax sum of a vector is the Euclidean projection of that vector onto the probability simplex (non-negative, summing to one, and satisfying the optimality conditions), along any dimension and also when entries tie. "
    "The second-order gradient is the Jacobian of that projection wherever it is differentiable, and the value of the sum is the maximum over the simplex of <x,w> - |w|^2/2.",
    ["inputs", "configurations"],
    "every real vector of each size and every dimension of a stated finite list",
    "The support of the projection changes from region to region; the tests look at one random input.",
    [SP],
    [m("sort-and-threshold projection", SP), m("projection Jacobian", SP)],
    ["gradient of the sparsemax semiring sum"],
)
prop(
    "C24",
    "Gradients of queries are the exact derivatives",
    "Differentiating the log-partition, log-probability, entropy, cross-entropy, KL and marginals with respect to the potentials gives their exact mathematical derivatives: marginals, event minus marginals, minus the covariance of scores with the part (entropy; the corresponding expectations for cross-entropy and KL), and the covariance of parts. "
    "Gradients of padding entries are zero and gradients flow through non-leaf potentials unchanged.",
    ["inputs", "configurations"],
    SIZES,
    "The tests check no derivative other than the marginals, at single points.",
    [D, H, LC, SM, DT, CRF, SR],
    [m("in-place chart construction that must stay differentiable", LC), m("create_graph in marginals", H)],
    ["torch.autograd.grad of query results"],
)
prop(
    "C25",
    "Alignment distributions sum over all monotone alignments",
    "For an alignment distribution the log-partition equals the log of the sum over all monotone alignment paths of the exponentiated path scores.",
    ["inputs", "configurations"],
    SIZES,
    "Not covered by any running test: the alignment tests are skipped without a GPU extension.",
    [AL, D],
    [m("banded scan", AL)],
    ["partition of the alignment distribution"],
    na="The alignment code needs the compiled extension genbmm, which is not installed and cannot be, and calls a semiring method that does not exist; it raises before computing anything, so there is no executable code to encode.",
)

prop(
    "C26",
    "In the counting semiring every dynamic program is the plain sum of products",
    "Run in the counting (+, x) semiring, each of the five dynamic programs returns, for every batch element, the plain sum over its structures of the product of their potentials, whatever the signs of the potentials, and padding entries do not change it; for chains and segmentations the derivative for each part inside the element's length is the sum over the structures using it of the product of their other potentials. "
    "The sequential semi-Markov recursion returns the same log-sum, best score and plain sum over labelled segmentations as the parallel one, with the same derivatives.",
    ["inputs", "configurations"],
    SIZES,
    FEW + " in a semiring where the identity elements are 0 and 1 and values may be negative, so a step that is only right in log space goes unseen.",
    [LC, SM, DT, CRF, CKY, H, SR],
    [m("chart initialisation with the semiring's zero and one", H), m("length masks filled with semiring elements", LC), m("sequential segment recursion", SM)],
    ["sum and marginals of the structure classes", "the sequential semi-Markov recursion"],
)
prop(
    "C27",
    "Forbidden parts are excluded exactly",
    "When some potentials are minus infinity and every batch element still has an allowed structure, the log-partition and the best score of chain, segmental, projective dependency, span-tree and grammar distributions are those of the allowed structures only, the argmax is an allowed structure of best score, and the marginals of chains and segmentations are the exact probabilities over allowed structures, with zero for forbidden parts. Likewise the k-best lists hold allowed structures only, samples and Gumbel relaxations are allowed structures with their exact probabilities, and the log-probability of an allowed event is its score minus the log-partition. No such result is nan or infinite.",
    ["inputs", "configurations"],
    "every real value of the potentials that are not forbidden, for each of a finite list of sizes, lengths and sets of forbidden parts",
    "The tests never pass an infinite potential; hard constraints reach the subtraction of infinities only for particular patterns of forbidden parts.",
    [LC, SM, DT, CRF, CKY, H, SR, D],
    [m("log-sum-exp and max with infinite operands", SR), m("length masks over infinite entries", LC), m("root arcs moved from the diagonal", DT)],
    ["partition, max, argmax, marginals, kmax, topk, sample, gumbel_crf and log_prob of the distribution objects"],
)
prop(
    "C28",
    "Fast batched products agree with the defining semiring sums",
    "Given a batched matrix product that meets the contract of the compiled extension, the fast log, fast max and fast sampling semirings' products equal the log-sum (the maximum) over the shared index for operands whose leading dimensions broadcast against each other and for any memory layout, and chains and segmentations run in these semirings give the log-partition, marginals and best score over all structures.",
    ["inputs", "configurations"],
    SIZES,
    "The tests of the fast semirings are skipped without a GPU extension.",
    ["torch_struct/semirings/fast_semirings.py", LC, SM],
    [m("flattening of broadcast leading dimensions", "torch_struct/semirings/fast_semirings.py")],
    ["matmul of the fast semirings", "sum and marginals of chains and segmentations in them"],
    note="holds for every value of the operands within the listed shapes, with the compiled extension replaced by a stand-in that meets its documented contract; says nothing about the extension itself",
)

prop(
    "C29",
    "Grammar derivations convert to their rule uses, score and tree graph",
    "For every derivation of a sentence grammar given as its chart of labelled spans, converting to an event gives exactly the terminals, the number of uses of every rule and the root symbol of that derivation for each batch element, and the score of that event is the sum of the corresponding potentials, counted with multiplicity. An event that lists the rule uses by their width and start gives back the chart of spans. The graph form of derivations and of labelled span trees lists every node once with its label, its left and right child in that order and its height.",
    ["inputs", "configurations"],
    SIZES,
    "The tests never convert grammar charts to parts and score only the marginals of sums.",
    [CKY],
    [m("pairing of the left and right child spans", CKY)],
    ["SentCFG.to_event", "CKY.score", "CKY.from_parts", "CKY.to_networkx"],
    note="holds for every derivation of the listed sizes and every value of the potentials; charts that are not derivations are not covered",
)


def built(pid):
    return os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py"))


TECH = (
    "bounded symbolic execution of the real torch_struct code at the tensor-operator level (every value symbolic, "
    "shadow terms checked against torch per operation), obligations against an explicit structure enumeration "
    "discharged by z3; counterexamples replayed on the real code"
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None},
            }
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif not built(p["id"]):
            na.append({"property": p["id"], "reason": "check not built yet"})
        else:
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": "%s /verif/run.py %s --tier quick" % (PY, p["id"]),
                    "thorough_cmd": "%s /verif/run.py %s --tier thorough" % (PY, p["id"]),
                    "evidence_file": "/verif/evidence/%s.json" % p["id"],
                    "technique": TECH,
                    "level": "model_checking",
                    "level_note": p["note"]
                    or "holds for every value of the symbolic inputs within the listed sizes and value bounds (real arithmetic); says nothing beyond them",
                }
            )
    man = {
        "version": 1,
        "setup_cmd": "%s -c \"import sys; sys.path.insert(0, '/verif'); import symtorch, z3, torch, torch_struct, oracle.dp; oracle.dp.selftest()\"" % PY,
        "checks": checks,
        "not_applicable": na,
        "notes": "Solver: z3 python bindings in /opt/veriftools/pyvenv. Engine in /verif/symtorch, specifications in /verif/oracle and /verif/props. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
