"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
import sys

sys.path.insert(0, ROOT)
from contracts.registry import MODULES

NOTES = {
    "C01": "Every formula for all parameters and scale factors; callees by contract; E(1)=1 and the sum of the fractions as lemmas.",
    "C02": "The tables and their interpolation for all parameters, scale factors and distances, at seven settings of (log10_amin, steps); odeint and interp by the contracts of C23 and C19.",
    "C03": "All three signs of the curvature and the limit between them, array and scalar arguments; radial distance by the contract of C02.",
    "C04": "Both growth branches (ODE right-hand side compared as a function of state and scale factor, and gamma), array and scalar arguments; odeint and interp by contract.",
    "C07": "Both transfer functions for all wavenumbers and cosmologies against the equations of Eisenstein & Hu; rejection of other names is a bounded list of calls.",
    "C08": "For an arbitrary transfer function with options; romb by the contract of C22. Known finding: decimal logarithms as bounds of sigma^2 (the statement with ln fails, the statement of what it does is proved instead).",
    "C09": "Both prescriptions for arbitrary transfer functions, every combination of scalar and array arguments; simps and interp by contract; rejection of other names is a bounded list of calls.",
    "C10": "For an arbitrary distribution of the user as well as every one provided, any array or scalar redshift, default and given zmax; simps by the contract of C22.",
    "C11": "For arbitrary normalised distributions mixed with planes in every order up to three bins (and four patterns of four), floating-point and integer multipoles; shared and per-bin multiplicative biases and alignment biases. The number of bins is what is bounded.",
    "C12": "For arbitrary distributions, arbitrary biases and each bias model, up to three bins; rejection of planes is a bounded list of calls.",
    "C13": "For arbitrary distributions and biases, up to four bins, directly and through the probe; rejection of planes is a bounded list of calls.",
    "C06": "For every class and constructor configuration with symbolic leaves: rebuilt, through jit, and with an arbitrary function mapped over the leaves (the leaves are exactly the parameters). Leaves of other types are a bounded check.",
    "C14": "For arbitrary kernels, transfer functions and nonlinear spectra (including the default ones by contract), float and integer multipoles in any number, up to four tracers spread over up to three probes; distances by contract. The number of tracers is what is bounded.",
    "C15": "Noise of both probes with symbolic densities and ellipticities up to five bins of every kind of distribution; noise spectra, sparse and dense covariance for arbitrary spectra, any number (at least two) of multipoles, up to four tracers; the signal by the contract of C14.",
    "C16": "For symbolic numbers and sizes of blocks and dense sizes, any elements, each product through dot and directly; which shapes are accepted is decided by exhausting shapes up to a bound.",
    "C17": "Each call of numpy.linalg is on the matrix of the elements at one position (proved, contract of numpy.linalg assumed); that this makes the inverse and determinant of the dense matrix is a theorem checked by Lean (lean/Sparse.lean). Rejections are a bounded list of calls.",
    "C18": "For data, means and covariances of any size, all options, dense and sparse, with numpy.linalg and cho_solve by contract; the equality of sparse and dense by the theorem of C17. Rejections are a bounded list of calls.",
    "C19": "For tables of any size, increasing and decreasing: every location of the cell and of the point in it, at an entry, and beyond both ends; positions of the minimum by the contract of argmin (it is where the squared distance is smallest).",
    "C20": "For any number of data points: every location of a knot (ends, next to the ends, inside). Continuity, derivatives and end conditions follow from the rows of the system the constructor solves, taken from the traced code; the contract of numpy.linalg.solve is A z = s with an invertible A.",
    "C21": "Each derivative against the derivative (jax.jvp) of the real evaluation, for every piece; the antiderivative by its derivative, its continuity at every knot and its zero; the integral along every path of its branches. Rejection of other orders is a bounded list of calls.",
    "C22": "For an arbitrary integrand (scalar- or vector-valued), any limits (scalars and arrays) and any even number of intervals; romb at depths 1 to 9 with an arbitrary integrand.",
    "C23": "Every step of the solution for an arbitrary right-hand side, arbitrary times and states of any shape (five ranks of the state), by unfolding the recurrence of the real scan.",
}
NOTES["C05"] = ("Inductive invariant of the object: each call in every state made of what any call writes, eager and inside seven transformations; "
                "all parameter values, representative arguments of the calls.")
NOTES["C24"] = ("From every value contract: jvp of the real code equals jvp of the specification in an arbitrary direction, vmap over all inputs equals the "
                "specification per member; C07 and C23 by their values and the analyticity of the traced primitives. Reverse mode in jit against finite differences is bounded.")
NOTES["C25"] = "For all parameter values, with and without gamma, every subset of overridden parameters of the preset."
NA = {}
GENERIC = ("Contract-based: each function of /repo is traced on symbolic arrays (jax.make_jaxpr with symbolic dimensions) on every run, "
           "its callees replaced by their contracts, and the postcondition is proved for all inputs by normalisation of real terms "
           "(z3 closes contradictory cases). Trusted: jax tracing and primitives, the prover; reals instead of floats. ")


def main():
    checks, na = [], []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        if not line.strip():
            continue
        p = json.loads(line)["id"]
        if p in MODULES:
            checks.append({
                "property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": TECH.get(p, "contract-based deductive verification of the traced real code (modular, symbolic sizes)"),
                "level": LEVEL.get(p, "proof"), "level_note": GENERIC + NOTES.get(p, ""),
            })
        else:
            na.append({"property": p, "reason": NA.get(p, "the contracts for it are not written yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks trace the code as it is. Known findings and repaired defects are listed in known_findings.jsonl and DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


TECH = {}
LEVEL = {}

if __name__ == "__main__":
    main()
