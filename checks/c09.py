import scen
def worker(P,c,o): scen.worker("C09",P,c,o)
def run(c): scen.run(c,"c09")
