import readcheck
def run(ctx): readcheck.run(ctx, "str", ["read", "expect", "streq"], False)
