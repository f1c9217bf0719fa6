import query_common


def run(ctx):
    # Comparisons on multi-valued properties: known finding
    co = {"datasets": [[[{"lang": ["a", "c"]}, {"lang": ["b"]}, {}]]]}
    extra = [{"kind": "query", "want": "C12", "label": "comparison-on-multi-valued-property", "corpus": co,
              "queries": [{"sel": [[["lang", op, v]]]}]} for op in ("<", "<=", ">", ">=") for v in ("b", ["b"])]
    query_common.run(ctx, "C12", extra)
