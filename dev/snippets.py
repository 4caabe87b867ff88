S = []
def add(name, src): S.append((name, src))
H = """
import torch, math
from UnarySim.kernel import *
from UnarySim.stream import *
from UnarySim.metric import *
from UnarySim.kernel.utils import *
F=torch.float
def bits(n, shape, k, dt=torch.float):
    r=[]
    import functools, operator
    m=1
    for s in shape: m=m*s
    for c in range(n):
        r.append(torch.tensor([((c*c*7+c*3+i*5+k*11+c*i*3)//3)%2 for i in range(m)]).type(dt).view(shape))
    return r
"""
for w in (1,2,3,4,5):
    for d in range(1,11):
        add("rng_sobol_%d_%d"%(w,d), H+"OUT.append(RNG({'width':%d,'rng':'Sobol','dimr':%d},{'rtype':torch.float})())"%(w,d))
for r in ("race","tc","race10","tc10","rc"):
    for dt in ("torch.float","torch.long","torch.int8"):
        add("rng_%s_%s"%(r,dt), H+"OUT.append(RNG({'width':4,'rng':'%s','dimr':2},{'rtype':%s})())"%(r,dt))
for mode in ("unipolar","bipolar"):
    for dt in ("torch.float","torch.int8","torch.long"):
        add("bingen_%s_%s"%(mode,dt), H+"""
OUT.append(BinGen(torch.tensor([-1,-0.5,0.,0.3,0.5,0.51,1.]),{'width':3,'mode':'%s'},{'rtype':%s})())
b=BinGen(torch.tensor([0.,0.3,0.5,0.51,1.]),{'width':3,'mode':'%s'},{'rtype':torch.float})()
g=BSGen(b,RNG({'width':3,'rng':'sobol','dimr':1},{'rtype':torch.float})(),{'stype':%s})
for i in range(10): OUT.append(g(torch.tensor([i])))
OUT.append(g(torch.tensor([1,2,3,4,5])))
"""%(mode,dt,mode,dt))
for st in ("torch.float","torch.int8","torch.long","torch.bool","torch.uint8"):
  for bt in ("torch.float","torch.long","torch.int8"):
    add("jkff_%s_%s"%(st,bt), H+"""
u=JKFF({'stype':%s})
for a,b in zip(bits(9,(2,2),0,%s),bits(9,(2,2),1,%s)):
    OUT.append(u(a,b)+0)
"""%(st,st,st))
    add("shiftreg_%s_%s"%(st,bt), H+"""
u=ShiftReg({'entry':4},{'stype':%s})
for a,b in zip(bits(9,(2,2),0,%s),bits(9,(2,2),1,%s)):
    OUT.append(u(a)); OUT.append(u(a,index=2)); OUT.append(u(a,mask=b))
"""%(st,st,st))
    add("signabs_%s_%s"%(st,bt), H+"""
u=FSUSignAbs({'depth':3},{'stype':%s,'btype':%s})
for a in bits(12,(2,2),0,%s):
    OUT.append(u(a))
"""%(st,bt,st))
    add("relu_%s_%s"%(st,bt), H+"""
u=FSUReLU({'depth':3},{'stype':%s,'btype':%s})
for a in bits(12,(2,2),0,%s):
    OUT.append(u(a))
"""%(st,bt,st))
    for d in (2,3,5):
        add("bi2uni_%s_%s_%d"%(st,bt,d), H+"""
u=Bi2Uni({'depth':%d},{'stype':%s,'btype':%s})
v=Uni2Bi({'depth':%d},{'stype':%s,'btype':%s})
for a in bits(12,(2,2),0,%s):
    OUT.append(u(a)); OUT.append(v(a))
"""%(d,st,bt,d,st,bt,st))
    add("ssync_%s_%s"%(st,bt), H+"""
u=SkewedSync({'depth':2},{'stype':%s,'btype':%s})
for a,b in zip(bits(12,(2,2),0,%s),bits(12,(2,2),1,%s)):
    OUT.append(u(a,b)[0]+0); 
"""%(st,bt,st,st))
    for mode in ("unipolar","bipolar"):
      for sc in ("None","1","2"):
        add("add_%s_%s_%s_%s"%(st,bt,mode,sc), H+"""
u=FSUAdd({'mode':'%s','scale':%s,'dima':0,'depth':6,'entry':None},{'stype':%s,'btype':%s})
for a in bits(12,(3,2),0,%s):
    OUT.append(u(a))
u=FSUAdd({'mode':'%s','scale':%s,'dima':1,'depth':4,'entry':4},{'stype':%s,'btype':%s})
for a in bits(12,(3,2),0,%s):
    OUT.append(u(a))
OUT.append(u.hwcfg)
"""%(mode,sc,st,bt,st,mode,sc,st,bt,st))
      for jk in (True,False):
        for em in (True,False):
          add("sqrt_%s_%s_%s_%s_%s"%(st,bt,mode,jk,em), H+"""
u=FSUSqrt({'mode':'%s','jk_trace':%s,'emit':%s,'entry_kn':1,'entry_sr':2,'rng':'Sobol','dimr':4},{'stype':%s,'btype':%s})
for a in bits(12,(3,),0,%s):
    OUT.append(u(a))
"""%(mode,jk,em,st,bt,st))
      add("div_%s_%s_%s"%(st,bt,mode), H+"""
u=FSUDiv({'depth_sa':3,'depth_ss':2,'entry_kn':2,'mode':'%s','rng':'Sobol','dimr':4},{'stype':%s,'btype':%s})
for a,b in zip(bits(12,(2,2),0,%s),bits(12,(2,2),1,%s)):
    OUT.append(u(a,b))
"""%(mode,st,bt,st,st))
      add("hsig_%s_%s_%s"%(st,bt,mode), H+"""
u=FSUHardsigmoid({'mode':'%s','scale':2,'dima':0,'depth':5,'entry':2},{'stype':%s,'btype':%s})
for a in bits(12,(3,2),0,%s):
    OUT.append(u(a))
"""%(mode,st,bt,st))
  for mode in ("unipolar","bipolar"):
    for rt in ("torch.float","torch.long","torch.int8"):
     add("mul_%s_%s_%s"%(st,mode,rt), H+"""
u=FSUMul(torch.tensor([0.3,0.7,0.,1.]),{'width':3,'mode':'%s','static':True,'rng':'Sobol','dimr':1},{'stype':%s,'rtype':%s})
for a in bits(20,(4,),0,%s):
    OUT.append(u(a))
u=FSUMul(None,{'width':3,'mode':'%s','static':False,'rng':'race','dimr':1},{'stype':%s,'rtype':%s})
for a,b in zip(bits(20,(4,),0,%s),bits(20,(4,),1,%s)):
    OUT.append(u(a,b))
"""%(mode,st,rt,st,mode,st,rt,st,st))
for mode in ("unipolar","bipolar"):
  for rng in ("Sobol","race","tc10"):
    for sc in ("None","1"):
      for b in ("True","False"):
        add("lin_%s_%s_%s_%s"%(mode,rng,sc,b), H+"""
w=torch.tensor([[0.3,-0.7,0.1],[0.9,0.5,-1.0]])
bb=torch.tensor([0.5,-0.25])
if '%s'=='unipolar': w=w.abs(); bb=bb.abs()
u=FSULinear(3,2,bias=%s,weight_ext=w,bias_ext=bb,hwcfg={'width':3,'mode':'%s','scale':%s,'depth':8,'rng':'%s','dimr':1})
for a in bits(20,(2,3),0):
    OUT.append(u(a))
"""%(mode,b,mode,sc,rng))
        for pad in ("0","1"):
          for st,dil in ((1,1),(2,1),(1,2)):
            add("conv_%s_%s_%s_%s_%s%d%d"%(mode,rng,sc,b,pad,st,dil), H+"""
w=((torch.arange(2*2*2*2)%%7).type(torch.float)/7).view(2,2,2,2)
bb=torch.tensor([0.5,-0.25])
if '%s'=='unipolar': bb=bb.abs()
u=FSUConv2d(2,2,2,stride=%d,padding=%s,dilation=%d,bias=%s,weight_ext=w,bias_ext=bb,hwcfg={'width':3,'mode':'%s','scale':%s,'depth':8,'rng':'%s','dimr':1})
for a in bits(5,(1,2,4,4),0):
    OUT.append(u(a))
"""%(mode,st,pad,dil,b,mode,sc,rng))
add("metrics", H+"""
p=ProgError(torch.tensor([[0.3,2.],[-3.,0.1]]),{'scale':2,'mode':'bipolar'})
s=Stability(torch.tensor([[0.3,1.],[-1.,0.1]]),{'scale':2,'mode':'unipolar','threshold':0.1})
for a in bits(8,(2,2),0):
    p.Monitor(a); OUT.append([x+0 for x in p()]); s.Monitor(a); OUT.append(s()+0)
""")
add("corr1", H+"""
p=Correlation()
for a,b in zip(bits(8,(1,),0),bits(8,(1,),1)):
    p.Monitor(a,b); OUT.append(p()+0)
p=Correlation()
for a,b in zip(bits(8,(1,),0),bits(8,(1,),1)):
    p.Monitor(a); OUT.append(p()+0)
""")
add("corr2", H+"""
p=Correlation()
p.Monitor(torch.zeros(3),torch.zeros(3))
""")
for r in ("round","floor","ceil"):
    add("round_"+r, H+"""
r=Round(intwidth=3,fracwidth=4,rounding='%s')
OUT.append(r(torch.tensor([0.3,0.03125,0.09375,-9.,9.,7.99])))
"""%r)
add("rshift", H+"""
OUT.append(rshift_offset(torch.tensor([0.3,-1.2]),torch.tensor([[0.7,0.3],[0.5,4.1]]),7,5,'round',1,1))
OUT.append(rshift_offset(torch.tensor([0.3,-1.2,0.7]),torch.tensor([[0.7,0.3],[0.5,4.1]]),7,5,'floor',0.9,0.8))
""")
add("shapes", H+"""
OUT.append([num2tuple(3),num2tuple((1,2)),conv2d_output_shape((7,9),(3,2),(2,1),(1,0),(1,2)),convtransp2d_output_shape((7,9),(3,2),(2,1),(1,0),1,(1,0))])
OUT.append([conv2d_get_padding((7,9),(4,9),(3,2),(2,1),1),tuple_pad if False else 0])
""")
add("rawscale", H+"""
OUT.append(RawScale({'quantile':0.7})(torch.tensor([0.3,-1.2,0.7,3.,4.,-0.1])))
OUT.append(RawScale({'quantile':1})(torch.tensor([0.3,-1.2,0.7,3.,4.,-0.1])))
""")
for m in ("HUB","FXP","TLUT"):
    add("hublin_"+m, H+"""
w=torch.tensor([[0.3,-0.7,0.1],[0.9,0.5,-1.0]])
bb=torch.tensor([0.5,-0.25])
u=%sLinear(3,2,weight_ext=w,bias_ext=bb)
OUT.append(u(torch.tensor([[0.2,-0.7,1.],[0.1,0.,-0.9]])))
"""%m)
    add("hubconv_"+m, H+"""
w=((torch.arange(2*2*2*2)%%7).type(torch.float)/7).view(2,2,2,2)
bb=torch.tensor([0.5,-0.25])
u=%sConv2d(2,2,2,weight_ext=w,bias_ext=bb)
OUT.append(u(((torch.arange(2*9)%%5).type(torch.float)/5).view(1,2,3,3)))
"""%m)
add("hubact", H+"""
x=torch.tensor([-2.,-0.5,0.,0.2,0.6,1.,3.])
OUT.append([HUBReLU()(x),HUBReLU(scale=2.)(x),HUBHardsigmoid()(x),HUBHardtanh()(x),FSUHardtanh()(x)])
""")
add("fsumgu", H+"""
w=((torch.arange(2*5)%7).type(torch.float)/7-0.4).view(2,5)
bb=torch.tensor([0.5,-0.25])
u=FSUMGUCell(3,2,True,w,bb,w*0.5,bb*0.5,hx_buffer=torch.tensor([[0.1,-0.3]]),hwcfg={'width':3,'mode':'bipolar','depth':8,'depth_ismul':2,'rng':'Sobol','dimr':1})
for a,b in zip(bits(10,(1,3),0),bits(10,(1,2),1)):
    OUT.append(u(a,b))
u=HUBMGUCell(3,2,True,w,bb,w*0.5,bb*0.5,hwcfg={'width':3,'mode':'bipolar','depth':8,'depth_ismul':2,'rng':'Sobol','dimr':1})
OUT.append(u(torch.tensor([[0.1,0.2,-0.3]]),torch.tensor([[0.1,-0.3]])))
OUT.append(u(torch.tensor([[0.1,0.2,-0.3]]),None))
""")
def all(): return S
