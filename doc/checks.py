HOOKS=dict(guard="cfg(regalloc2_verif)",enable='RUSTFLAGS="--cfg regalloc2_verif" when building /verif/harness-int (bin/lib/core.py does it)',source_commits=["f7a08c0", "91dabcb"])
NA=[]
NOTES="Every check builds its harness from /repo's working tree. See DESIGN.md."
A=("Each recorded output is executed by TLC over all control-flow paths to a fixpoint (complete per program); programs are "
   "generated (seeded) and pre-screened, so the quantifier over programs is explored, not exhausted. Trusts: TLC, the generator's notion of a valid function, the recorder.")
for i in ["C01","C02","C03","C04","C05","C06","C07","C10"]:
    c(i,T,A)

K=("Histories/inputs are generated by the harness from a seed (small ones exhaustively, larger ones at random), run on the real code, and the "
   "recorded answers are replayed on the TLA+ module by TLC. Trusts: TLC, the recorder, and the harness's quick look that picks which records TLC executes.")
for i in ["C08","C09","C20","C11","C12","C13","C14","C15","C16","C17","C18","C19","C21"]:
    c(i,T,K)
