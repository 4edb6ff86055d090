import structs
def check(c):
    c.unit_validate("u_struct",structs.map_scenarios(c,"sortmap"),"MapTrace","CONSTANT Ordered=TRUE")
