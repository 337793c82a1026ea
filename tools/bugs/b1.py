BUGS = []


def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO):
    BUGS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=DEMO))


bug("c02-narrow-int", "C02", "plaintext of a narrow integer dtype (uint8, int16, int32) whose scaled value does not fit that dtype", "the value is scaled before it is widened, so it wraps around",
    [("crypten/encoder.py", "return self._scale * x.long()\n        elif isinstance(x, np.ndarray)", "return (self._scale * x).long()\n        elif isinstance(x, np.ndarray)")], '''
import torch


def f(r):
    from crypten.encoder import FixedPointEncoder

    e = FixedPointEncoder()
    near(e.decode(e.encode(torch.tensor([40000, -3], dtype=torch.int32))), [40000.0, -3.0])
    near(e.decode(e.encode(torch.tensor([5, 200], dtype=torch.uint8))), [5.0, 200.0])


main(1, f)
''')
bug("c04-ttp-wrap", "C06", "three or more parties, third-party provider, rescaling after a product", "the third party computes the wrap count of the first two shares only",
    [("crypten/mpc/provider/ttp_provider.py", "theta_r = count_wraps(r)\n\n        return", "theta_r = count_wraps(r[:2])\n\n        return")], '''
import torch


def f(r):
    import crypten

    x = crypten.cryptensor(torch.arange(200.0) / 7)
    near(x.mul(x).get_plain_text(), (torch.arange(200.0) / 7) ** 2)


main(4, f, ttp=True)
''')
