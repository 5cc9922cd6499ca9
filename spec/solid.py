def lemmas(ctx, ex): pass
