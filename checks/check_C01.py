import structs
def check(c):
    c.mc("MCHashTable","MCHashTable.cfg")
    c.unit_validate("u_struct",structs.map_scenarios(c,"hash"),"MapTrace","CONSTANT Ordered=FALSE")
