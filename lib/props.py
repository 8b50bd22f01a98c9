"""Per-property configuration of ./check."""
import json, os, subprocess


def sched(*pkgs):
    """Instruments packages for controlled scheduling."""
    def prepare(work, env, repo, overlay, verif):
        out = os.path.join(work, "instr")
        os.makedirs(out)
        e = dict(env, GOFLAGS="-mod=mod")
        tool = os.path.join(work, "instr-tool")
        subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(verif, "lib", "instr"), env=e, check=True)
        r = subprocess.run([tool, out, "github.com/mewmew/typast", repo] + list(pkgs), env=e, check=True, stdout=subprocess.PIPE, text=True)
        overlay["Replace"].update(json.loads(r.stdout))
        overlay["Replace"][os.path.join(repo, "internal/vfsched/vfsched.go")] = os.path.join(verif, "harness", "vfsched.go")
    return prepare


def tool(*cmds):
    """Builds commands."""
    def prepare(work, env, repo, overlay, verif):
        for c in cmds:
            r = subprocess.run(["go", "build", "-o", os.path.join(work, c), "./cmd/" + c], cwd=repo, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print("CHECK-ERROR: build failed:\n" + r.stdout[-3000:], flush=True)
                raise SystemExit(2)
    return prepare


PROPS = {
    "C31": dict(files=["tree.go", "corpus.go", "sizes.go", "edits.go", "spannodes.go", "c31_local.go"]),
    "C30": dict(files=["c30_containers.go"]),
    "C29": dict(files=["tree.go", "corpus.go", "sizes.go", "grammar.go", "reflex.go", "c29_math.go"]),
    "C27": dict(files=["tree.go", "corpus.go", "sizes.go", "tool.go", "project.go", "c27_offline.go"], prepare=tool("offline-typ")),
    "C26": dict(files=["tree.go", "corpus.go", "sizes.go", "tool.go", "project.go", "c26_update.go"], prepare=tool("update-typ")),
    "C25": dict(files=["tree.go", "corpus.go", "sizes.go", "tool.go", "c25_parsetyp.go"], prepare=tool("parse-typ")),
    "C28": dict(files=["tree.go", "corpus.go", "sizes.go", "edits.go", "sched.go", "c28_independent.go"],
                prepare=sched("typst/syntax", *["internal/%s:vars" % p for p in ("scanner", "stack", "vector", "option", "ranges", "stdx", "mathx", "typutil")])),
    "C21": dict(files=["tree.go", "corpus.go", "sizes.go", "sched.go", "c21_ids.go"], prepare=sched("typst/syntax:file.go")),
    "C10": dict(files=["tree.go", "corpus.go", "sizes.go", "reflex.go", "c10_markup.go"]),
    "C13": dict(files=["tree.go", "corpus.go", "sizes.go", "grammar.go", "reflex.go", "refparse.go", "c13_errors.go"]),
    "C15": dict(files=["tree.go", "corpus.go", "sizes.go", "c15_raw.go"]),
    "C16": dict(files=["tree.go", "corpus.go", "sizes.go", "grammar.go", "c16_ast.go"]),
    "C17": dict(files=["tree.go", "corpus.go", "sizes.go", "grammar.go", "c17_html.go"]),
    "C18": dict(files=["tree.go", "corpus.go", "sizes.go", "c18_linked.go"]),
    "C24": dict(files=["tree.go", "corpus.go", "sizes.go", "c24_sets.go"]),
    "C08": dict(files=["tree.go", "corpus.go", "sizes.go", "c08_spans.go"]),
    "C20": dict(files=["tree.go", "corpus.go", "sizes.go", "c20_versions.go"]),
    "C19": dict(files=["tree.go", "corpus.go", "sizes.go", "c19_specs.go"]),
    "C22": dict(files=["tree.go", "corpus.go", "sizes.go", "c22_paths.go"]),
    "C23": dict(pkg="typst/cstwalk", files=["c23_walk.go"]),
    "C14": dict(files=["tree.go", "corpus.go", "sizes.go", "reflex.go", "c14_tokens.go"]),
    "C12": dict(files=["tree.go", "corpus.go", "sizes.go", "grammar.go", "c12_statements.go"]),
    "C09": dict(files=["tree.go", "corpus.go", "sizes.go", "grammar.go", "c09_operators.go"]),
    "C11": dict(files=["tree.go", "corpus.go", "sizes.go", "grammar.go", "c11_grammar.go"]),
    "C02": dict(files=["tree.go", "corpus.go", "sizes.go", "c02_total.go"]),
    "C03": dict(files=["tree.go", "corpus.go", "sizes.go", "edits.go", "c03_incremental.go"]),
    "C05": dict(files=["tree.go", "corpus.go", "sizes.go", "edits.go", "lineindex.go", "c05_lines.go"]),
    "C06": dict(files=["tree.go", "corpus.go", "sizes.go", "lineindex.go", "c06_positions.go"]),
    "C04": dict(files=["tree.go", "corpus.go", "sizes.go", "edits.go", "lineindex.go", "c04_replace.go"]),
    "C07": dict(files=["tree.go", "corpus.go", "sizes.go", "edits.go", "spannodes.go", "c07_spans.go"]),
    "C01": dict(files=["tree.go", "corpus.go", "sizes.go", "c01_lossless.go"]),
}
