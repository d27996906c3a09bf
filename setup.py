import engine, sys
rc = 0
for g in engine.GROUPS:
    try:
        print(g, engine.build_all(g)[2])
    except engine.Fail as e:
        print(g, e)
        rc = g == "main"
sys.exit(rc)
