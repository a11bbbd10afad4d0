"""Reference formulas for linearised uncertainties, as specification code."""

# squared standard errors of the ellipse parameters to first order, from the
# variances of independent cosine and sine coefficients
ELLIPSE = """
zx = Xu + Yv
zy = Xv - Yu
wx = Xu - Yv
wy = Xv + Yu
zz = zx**2 + zy**2
ww = wx**2 + wy**2
rp = 2 * np.sqrt(zz)
rm = 2 * np.sqrt(ww)
smaj2 = (zx/rp + wx/rm)**2 * vXu + (wy/rm - zy/rp)**2 * vYu + (zy/rp + wy/rm)**2 * vXv + (zx/rp - wx/rm)**2 * vYv
smin2 = (zx/rp - wx/rm)**2 * vXu + (zy/rp + wy/rm)**2 * vYu + (zy/rp - wy/rm)**2 * vXv + (zx/rp + wx/rm)**2 * vYv
k = (90 / np.pi)**2
sth2 = k * ((zy/zz + wy/ww)**2 * vXu + (wx/ww - zx/zz)**2 * vYu + (zx/zz + wx/ww)**2 * vXv + (wy/ww - zy/zz)**2 * vYv)
sg2 = k * ((zy/zz - wy/ww)**2 * vXu + (wx/ww + zx/zz)**2 * vYu + (wx/ww - zx/zz)**2 * vXv + (wy/ww + zy/zz)**2 * vYv)
"""
SCALAR = """
AA = Xu**2 + Yu**2
smaj2 = (Xu**2 * vXu + Yu**2 * vYu) / AA
sg2 = (180 / np.pi)**2 * (Yu**2 * vXu + Xu**2 * vYu) / AA**2
"""

# covariance and pseudo-covariance of the coefficients of a weighted complex
# least-squares solution, and the variances of the cosine and sine
# coefficients of the pair of columns p, q
COVARIANCE = """
n = B.shape[0] - B.shape[1]
xm = np.dot(B, m)
if not two:
    xm = np.real(xm)
WB = W[:, np.newaxis] * B
Wx = W * x
C = np.linalg.inv(np.dot(np.conj(B).T, WB)) * (np.real(np.dot(np.conj(x), Wx) - np.dot(np.conj(xm), Wx)) / n)
P = np.linalg.inv(np.dot(B.T, WB)) * ((np.dot(x, Wx) - np.dot(xm, Wx)) / n)
G = C + P
H = C - P
"""
VARIANCES = """
vXu = np.real(G[p, p] + G[q, q] + 2 * G[p, q]) / 2
vYu = np.real(H[p, p] + H[q, q] - 2 * H[p, q]) / 2
vXv = np.real(H[p, p] + H[q, q] + 2 * H[p, q]) / 2
vYv = np.real(G[p, p] + G[q, q] - 2 * G[p, q]) / 2
Xu = np.real(m[p] + m[q])
Yu = -np.imag(m[p] - m[q])
Xv = np.imag(m[p] + m[q])
Yv = np.real(m[p] - m[q])
"""
