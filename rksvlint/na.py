# reasons and wording for MANIFEST.json
NA = {
 'C27': 'whether binary floating point sums of five parsed decimals round to the exact cent is a numerical fact about run-time values; no dataflow, type or effect argument bounds it (C05 decides the shape of the computation, not its rounding error)',
 'C28': 'memory use is a run-time quantity (interpreter, ijson buffers, garbage collection); a static retention argument over the generator pipeline does not bound it',
}
TECH = {}
NOTE = {}
DEFNOTE = ('Sound modulo the modelled Python subset and the declared types and library contracts in rksvlint/config.py '
           'and builtins_model.py; constructs outside the model make an obligation undecided (listed in the evidence), never silently discharged.')
