"""C20 magnitude response of the ChebyshevII designs"""
from .. import designs

RULE = designs.RULE + {'Butterworth': '|H|^2 = 1/(1+w^(2n)).', 'ChebyshevI': '|H|^2 = 1/(1+e^2 T_n^2(w)), e^2 = 10^(ripple/10)-1.',
                       'ChebyshevII': '|H|^2 = 1/(1+1/(e^2 T_n^2(1/w))), e^2 = 1/(10^(stop/10)-1).'}['ChebyshevII'] + ' The gain at DC (low-pass) or Nyquist (high-pass) is a separate obligation including its sign.'


def run(rep):
    return designs.run_family(rep, 'ChebyshevII')
