#!/usr/bin/env python3
"""mkpins.py DRIVE CHILD SCRATCH: writes the pinned scenarios of the known findings (known/*.json) and the lines about them.

Not a check. Every pin is replayed; the class it fails with is recorded in the pin.
"""
import json, os, re, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
drive, child, scratch = sys.argv[1:4]


def raw(d, text):
    return {"dialect": d, "tables": [], "raw": text}


def sc(prop, play, d, cur=None, want=None, **k):
    s = {"prop": prop, "play": play, "seed": "7", "dialect": d, "style": {}, "source": "sql", "go": {}, "core": True}
    if cur is not None:
        s["cur"] = raw(d, cur)
    if want is not None:
        s["want"] = [raw(d, w) for w in ([want] if isinstance(want, str) else want)]
    s.update(k)
    return s


PG2 = 'CREATE TABLE a (id INTEGER NOT NULL, CONSTRAINT a_pkey PRIMARY KEY (id));\n'
PINS = [
    ("C13-mysql-drop-index", sc("C13", "plan", "mysql", 'CREATE TABLE `a` (`id` bigint NOT NULL, `n` int, PRIMARY KEY (`id`), KEY `idx_n` (`n`)) ENGINE=InnoDB;\n',
     'CREATE TABLE `a` (`id` bigint NOT NULL, `n` int, PRIMARY KEY (`id`)) ENGINE=InnoDB;\n', source2="sql"),
     "MySQL plans drop an index with DROP INDEX name, without the ON table that MySQL requires (pinned by the repository's tests)"),
    ("C13-spanner-drop-options", sc("C13", "plan", "spanner", 'CREATE TABLE a (id INT64 NOT NULL, t TIMESTAMP OPTIONS (allow_commit_timestamp = true)) PRIMARY KEY (id);\n',
     'CREATE TABLE a (id INT64 NOT NULL, t TIMESTAMP) PRIMARY KEY (id);\n', source2="sql"),
     "Spanner plans remove column options with ALTER COLUMN ... DROP OPTIONS, which Spanner does not have (pinned by the repository's tests)"),
    ("C02-mysql-option-removed", sc("C01", "apply", "mysql", "CREATE TABLE `a` (`id` bigint NOT NULL, PRIMARY KEY (`id`)) ENGINE=InnoDB DEFAULT CHARSET=latin1;\n", "CREATE TABLE `a` (`id` bigint NOT NULL, PRIMARY KEY (`id`)) ENGINE=InnoDB;\n"),
     "a MySQL table option the desired source no longer names (DEFAULT CHARSET) is left in place and apply exits 0"),
    ("C13-mysql-fk-of-self-pk", sc("C13", "plan", "mysql", "CREATE TABLE `a` (`id` bigint NOT NULL, `k` bigint NOT NULL, `p` bigint, PRIMARY KEY (`id`), KEY `ip` (`p`), CONSTRAINT `f` FOREIGN KEY (`p`) REFERENCES `a` (`id`)) ENGINE=InnoDB;\n",
     "CREATE TABLE `a` (`id` bigint NOT NULL, `k` bigint NOT NULL, `p` bigint, PRIMARY KEY (`id`, `k`), KEY `ip` (`p`), CONSTRAINT `f` FOREIGN KEY (`p`) REFERENCES `a` (`id`)) ENGINE=InnoDB;\n", source2="sql"),
     "changing the primary key of a MySQL table that refers to itself: DROP PRIMARY KEY is rejected while the foreign key needs it"),
    ("C13-crdb-pk", sc("C13", "plan", "cockroachdb", 'CREATE TABLE a (id UUID NOT NULL, k UUID NOT NULL, CONSTRAINT a_pkey PRIMARY KEY (id));\n', 'CREATE TABLE a (id UUID NOT NULL, k UUID NOT NULL, CONSTRAINT a_pkey PRIMARY KEY (id, k));\n', source2="sql"),
     "a CockroachDB primary key is changed by DROP CONSTRAINT and ADD CONSTRAINT in separate statements, which CockroachDB rejects"),
    ("C02-mysql-key-case", sc("C02", "apply", "mysql", "", "CREATE TABLE `a` (`ID` bigint NOT NULL, PRIMARY KEY (`id`)) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_0900_ai_ci;\n"),
     "a MySQL column written in another letter case in a key than in its definition: the key is planned to be dropped and added at every run"),
    ("C02-mysql-collate-only", sc("C02", "apply", "mysql", "", "CREATE TABLE `a` (`id` bigint NOT NULL, `s` varchar(64) COLLATE utf8mb4_bin, PRIMARY KEY (`id`)) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_0900_ai_ci;\n"),
     "a MySQL column with COLLATE but without CHARACTER SET, which MySQL shows with both, is planned as changed at every run"),
    ("C02-mysql-int-width", sc("C02", "apply", "mysql", "", "CREATE TABLE `a` (`id` bigint NOT NULL, `n` int(11), PRIMARY KEY (`id`)) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_0900_ai_ci;\n"),
     "a MySQL integer column with a display width, which MySQL 8.0 does not show, is planned as changed at every run"),
    ("C02-pg-check-and", sc("C02", "apply", "postgres", "", "CREATE TABLE public.a (id bigint NOT NULL, CONSTRAINT a_pkey PRIMARY KEY (id), CONSTRAINT c CHECK (id > 0 AND id < 9));\n"),
     "a PostgreSQL CHECK of several comparisons, each of which PostgreSQL shows in parentheses, is planned to be dropped and added at every run"),
    ("C02-crdb-check-and", sc("C02", "apply", "cockroachdb", "", "CREATE TABLE public.a (id INT8 NOT NULL, CONSTRAINT a_pkey PRIMARY KEY (id), CONSTRAINT c CHECK (id > 0 AND id < 9));\n"),
     "a CockroachDB CHECK of several comparisons, each of which CockroachDB shows in parentheses, is planned to be dropped and added at every run"),
    ("C02-pg-default-expression", sc("C02", "apply", "postgres", "", "CREATE TABLE public.a (id bigint NOT NULL, n bigint DEFAULT 1 + 2, CONSTRAINT a_pkey PRIMARY KEY (id));\n"),
     "a PostgreSQL default that is an operation, which PostgreSQL shows in parentheses, is planned as changed at every run"),
    ("C02-crdb-int", sc("C02", "apply", "cockroachdb", "", "CREATE TABLE public.a (id INT8 NOT NULL, n INT, CONSTRAINT a_pkey PRIMARY KEY (id));\n"),
     "a CockroachDB column of type INT or INTEGER, which CockroachDB shows as INT8, is planned as changed at every run (pinned by the repository's tests)"),
]


def main():
    lines = []
    for name, s, text in PINS:
        name = s["prop"] + name[3:]
        f = "%s/known/%s.json" % (V, name)
        j = {"property": s["prop"], "violation": "", "class": "", "base_seed": 7, "index": 0, "trace_hash": "", "scenario": s, "trace": None}
        json.dump(j, open(f, "w"), indent=1)
        r = subprocess.run([drive, "-child", child, "-dir", scratch, "-replay", f], capture_output=True, text=True)
        m = re.search(r"(?m)^class: (.*)$", r.stdout)
        if r.returncode != 1 or not m:
            print("HOLDS" if r.returncode == 0 else "??", name, r.stdout[-600:], r.stderr[-300:])
            os.remove(f)
            continue
        j["class"] = m.group(1)
        j["violation"] = r.stdout.split("class: ", 1)[1].split("\n", 1)[1][:600]
        json.dump(j, open(f, "w"), indent=1)
        print("FAILS", name, "|", j["class"], "|", j["violation"][:260].replace("\n", " "))
        lines.append("known: property=%s pin=known/%s.json %s" % (s["prop"], name, text))
    k = V + "/known-findings.txt"
    old = [l for l in open(k).read().splitlines() if not l.startswith("known:")]
    open(k, "w").write("\n".join(old[:3] + lines + old[3:]) + "\n")


main()
