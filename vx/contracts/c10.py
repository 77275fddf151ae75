"""C10: conversion of a transfer function to a state-space system"""
from vx.contract import *
from vx.contracts.lti import *
from vx.contracts.c09 import tf

TRUSTED = ['scipy.signal.tf2ss returns the controller canonical form of num/den (documented contract)']
ASSUME = ['machine arithmetic is treated as real arithmetic']

def units(v):
    for form in (None, 'ctrl', 'obs'):
        def body(h, form=form):
            T, m, num, den = tf(h, '', h.int('n', 1))
            S = T.to_dSS() if form is None else T.to_dSS(form) if form == 'ctrl' else T.to_dSS(form=form)
            h.ensure('the result is a dSS', isinstance(S, h.load('fixif.LTI').dSS))
            h.ensure('sizes', f_and(f_same(IP.of(S.n) + 1, m), f_same(S.p, 1), f_same(S.q, 1)))
            realizes(h, 'to_dSS', S, m - 1, num, den)
            h.matrix_is('the transfer function is not changed', T.num, 1, m, lambda i, j: num(j))
            h.matrix_is('the transfer function is not changed', T.den, 1, m, lambda i, j: den(j))
        v.unit('to_dSS(%s)' % (form or ''), body)
    for bad in ('foo', None, 3, ''):
        def body(h, bad=bad):
            T, m, num, den = tf(h, '', h.int('n', 1))
            h.raises('ValueError', ValueError, T.to_dSS, bad)
        v.unit('to_dSS: the form %r is refused' % (bad,), body)
