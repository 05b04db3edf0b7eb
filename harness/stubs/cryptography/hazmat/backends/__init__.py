def default_backend():
    return object()
