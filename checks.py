# Budgets (number of executions per engine) and sources per property.
def std(sched=240000, asan=6000, tsan=0, src=None, **kw):
    q = dict(sched=sched, asan=asan, tsan=tsan)
    t = dict(sched=sched * 12, asan=asan * 12, tsan=max(tsan * 12, 20000))
    d = dict(src=src, quick=q, thorough=t)
    d.update(kw)
    return d


MAT = ["mat0.cpp", "mat1.cpp", "mat2.cpp", "mat3.cpp"]  # the attach matrix

CHECKS = {
    "C01": std(src=["C01.cpp", "C01a.cpp", "C01b.cpp", "C01c.cpp", "C01d.cpp"]),
    "C02": std(src=["C02.cpp"], tsan=3000),
    "C03": std(src=["C03.cpp"] + MAT),
    "C04": std(src=["C04.cpp"]),
    "C05": std(src=["C05.cpp"] + MAT),
    "C06": std(src=["C06.cpp"] + MAT),
    "C07": std(src=["C07.cpp"] + MAT),
    "C08": std(src=["C08.cpp"] + MAT),
    "C09": std(src=["C09.cpp"] + MAT),
    "C10": std(src=["C10.cpp"]),
    "C11": std(src=["C11.cpp", "C11a.cpp", "C11b.cpp", "C11c.cpp"]),
    "C12": std(src=["C12.cpp", "C12a.cpp", "C12b.cpp", "C12c.cpp"]),
    "C13": std(src=["C13.cpp"] + MAT),
    "C14": std(src=["C14.cpp"]),
    "C15": std(src=["C15.cpp"]),
    "C16": std(src=["C16.cpp"]),
    "C17": std(src=["C17.cpp"]),
    "C18": std(src=["C18.cpp"]),
    "C19": std(src=["C19.cpp"] + MAT, sched=160000, asan=8000),
    "C20": std(src=["C20.cpp", "C20a.cpp", "C20b.cpp"] + MAT),
    "C21": std(src=["C21.cpp", "C21a.cpp", "C21b.cpp", "C21c.cpp"]),
    "C22": std(src=["C22.cpp"]),
    "C23": std(src=["C23.cpp", "C23a.cpp", "C23b.cpp"]),
    "C24": std(src=["C24.cpp", "C24a.cpp", "C24b.cpp", "C24c.cpp"], std="gnu++20"),
    "C25": std(src=["C25.cpp"]),
    "C26": std(src=["C26.cpp"], sched=100000, asan=4000),
    "C27": std(src=["C27.cpp"]),
}
