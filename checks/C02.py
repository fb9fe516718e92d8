import inputproto
def run(ctx): inputproto.run(ctx, False)
