class MGF1(object):
    def __init__(self, algorithm):
        self.algorithm = algorithm
class OAEP(object):
    def __init__(self, mgf, algorithm, label):
        self.args = (mgf.algorithm.name, algorithm.name, label)
