import scen
def worker(P,c,o): scen.worker("C04",P,c,o)
def run(c): scen.run(c,"c04")
