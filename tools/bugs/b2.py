BUGS = []


def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO):
    BUGS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=DEMO))


bug("c08-top-bit", "C08", "conversion of a full-width binary sharing of a negative value back to arithmetic shares", "the sign bit is not converted, so negative values come back shifted by 2**63",
    [("crypten/mpc/primitives/converters.py", "        bits = torch.iinfo(torch.long).bits\n", "        bits = torch.iinfo(torch.long).bits - 1\n")], '''
import torch


def f(r):
    import crypten
    from crypten.mpc import MPCTensor
    from crypten.mpc.ptype import ptype

    x = crypten.cryptensor(torch.tensor([2.5, -3.0, 0.0]))
    y = x.to(ptype.binary).to(ptype.arithmetic)
    near(y.get_plain_text(), [2.5, -3.0, 0.0])


main(2, f)
''')
bug("c11-stack-one", "C11", "crypten.stack of a list with a single tensor, dim other than 0", "the new dimension is put first whatever dim says",
    [("crypten/__init__.py", "        return tensors[0].unsqueeze(dim)\n", "        return tensors[0].unsqueeze(0)\n")], '''
import torch


def f(r):
    import crypten

    t = torch.tensor([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]])
    near(crypten.stack([crypten.cryptensor(t)], dim=1).get_plain_text(), torch.stack([t], dim=1))


main(1, f)
''')
bug("c07-sum-ones", "C07", "sum along one dimension of a binary sharing that has another dimension of size one", "dimensions of size one disappear from the result",
    [("crypten/mpc/primitives/binary.py", "            x = x.transpose(0, dim).squeeze(dim)\n", "            x = x.transpose(0, dim).squeeze()\n")], '''
import torch


def f(r):
    from crypten.mpc.primitives import BinarySharedTensor

    t = torch.tensor([[[5], [7], [9]]])
    near(BinarySharedTensor(t, src=0).sum(1).reveal(), t.sum(1))


main(2, f)
''')
bug("c06-trunc-wrap", "C06", "three or more parties, rescaling with the trusted first party, operands whose masked shares wrap more than once", "the wrap count of the opened sum only looks at the first and the last share",
    [("crypten/mpc/primitives/beaver.py", "        theta_z = count_wraps(theta_z)\n", "        theta_z = count_wraps(theta_z[:2] + theta_z[3:])\n")], '''
import torch


def f(r):
    import crypten

    t = torch.arange(100.0) / 7
    near((crypten.cryptensor(t) * crypten.cryptensor(t)).get_plain_text(), t * t)


main(3, f)
''')
