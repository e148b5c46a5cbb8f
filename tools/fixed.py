"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo.
Order of PROPS follows the history (git log --reverse); a commit of its own line each."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 "P19": "7822591 9ce5294", "P04": "c78bde8", "P05": "3f587a0", "P02": "118a50a 2011f18", "P06": "b2a7d61 c85adfd 05d8f8b",
 "P16": "2a118c6 8af1a6b 02dcd1f ad27717 53a39ee", "P01": "86f4e15 e97a4bc ae08d72 72c410a", "P14": "a96ac8a 9244932",
 "P21": "04df0bd 5fce887 c908b29 96a8688 aa4486b", "P22": "4866dd3 77a5456 ad1d4c5 173497a 885ed03", "P08": "7ca4e6a",
 "P25": "c685c60 4f3232f 31af0ea 5cc5291 ae35323 197683a", "P26": "79ceca0 291ba5e", "P27": "41a3ab1 1642d2e", "P29": "d9e14eb",
 "P11": "adb3576 6b645db 1a35160 e802c9c 525030c b7d3051", "P10": "c5fcb18 39887cb 4a7411a 4bb222e c5c7714 1daef27", "P30": "0ecae38", "P15": "d3a2bda", "P28": "0a7cb34 afcf57a",
 "P32": "9c0e83f 4997c57 e004b0b", "P23": "17e86bd 5debc69 2dd4aa5 7f37e72 467c39b 487c6c8 09371da ee1b614",
 "P07": "7fa864d 3721222 dc7e669 0500b40 3eae0b1 5ff19f5 99cdc6d", "P12": "df838d0 f3db4bc 0426a97 75bb758 f1f9070 71c1400 7359481 e43edab 2554955 cadde76 2eee854 461cc3f 1c523da 5f47067 19e4901 d5d1793 74932ad 01047be e073e11",
 "P31": "d145477 ad7f980 7d2c6a5 f6829a5 59107c8 e124ce9 d6c2e83 924241f 78adf7b",
 "P17": "0fe9b32 ec951e4 0479d7a a7e00da 213b410 f304f7a 98ce86f 70efa9e 8e6292f db44f3b 2665309 fda56fa",
 "P33": "4966348 32fa4ad d8cabc2",
 "P18": "d283175 a822285 e0814a0 b0327c3",
 "P24": "e965dab c6bebb8 4ac03dd fbd2b14 9e3832f 461753d 9789188 902fef5 0b27795 cadb686 1d8fc8a e2286a0 7c40bf5 b5a0ae0 "
        "9be07a8 7f8e5ba 0abd619 22c0829 45fb544 8c58c6a 736b2c0 03186c9 3cf2dee",
}
of = {c: p for p, cs in PROPS.items() for c in cs.split()}
out = []
for line in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "c53a293.."], capture_output=True,
                           text=True, check=True).stdout.splitlines():
    c, s = line.split(" ", 1)
    assert s.startswith("fix: ") and c in of, line
    out.append("fixed: property=%s %s %s" % (of[c], c, s[5:]))
f = os.path.join(HERE, "known_findings.json")
d = json.load(open(f))
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1)
print(len(out))
