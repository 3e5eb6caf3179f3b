import scipy.linalg


def inverse(x):
    return scipy.linalg.inv(x)
