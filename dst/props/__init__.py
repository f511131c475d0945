import importlib

MODULES = ("steps", "order", "batches", "bnn", "traces", "threads", "shared", "footprint")


def registry():
    out = {}
    for name in MODULES:
        try:
            module = importlib.import_module(__name__ + "." + name)
        except ModuleNotFoundError as error:
            if error.name != __name__ + "." + name:
                raise
            continue
        for value in vars(module).values():
            if isinstance(value, type) and getattr(value, "id", None) and \
                    value.__module__ == module.__name__:
                out[value.id] = value
    return out
