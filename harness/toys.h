/* toy pairing parameters (found by search, full bilinearity confirmed by the checks) */
static const char *vp_toy[] = {
  /* 0: a r=5 q=59 (+1,-1) */ "type a\nq 59\nh 12\nr 5\nexp2 2\nexp1 1\nsign1 1\nsign0 -1\n",
  /* 1: a r=7 q=83 (-1,+1) */ "type a\nq 83\nh 12\nr 7\nexp2 3\nexp1 1\nsign1 -1\nsign0 1\n",
  /* 2: a r=11 q=131 (+1,+1) */ "type a\nq 131\nh 12\nr 11\nexp2 3\nexp1 1\nsign1 1\nsign0 1\n",
  /* 3: a r=19 q=227 (+1,-1) */ "type a\nq 227\nh 12\nr 19\nexp2 4\nexp1 2\nsign1 1\nsign0 -1\n",
  /* 4: a r=29 q=347 (-1,-1) */ "type a\nq 347\nh 12\nr 29\nexp2 5\nexp1 1\nsign1 -1\nsign0 -1\n",
  /* 5: a1 n=33 */ "type a1\np 131\nn 33\nl 4\n",
  /* 6: a1 n=65 */ "type a1\np 1039\nn 65\nl 16\n",
  /* 7: d_17_13 */ "type d\nq 17\nn 13\nh 1\nr 13\na 10\nb 1\nk 6\nnk 24130496\nhk 142784\ncoeff0 1\ncoeff1 12\ncoeff2 1\nnqr 3\n",
  /* 8: d_17_7 */ "type d\nq 17\nn 14\nh 2\nr 7\na 16\nb 1\nk 6\nnk 24127796\nhk 492404\ncoeff0 13\ncoeff1 9\ncoeff2 4\nnqr 3\n",
  /* 9: d_19_7 */ "type d\nq 19\nn 14\nh 2\nr 7\na 9\nb 15\nk 6\nnk 47043724\nhk 960076\ncoeff0 2\ncoeff1 11\ncoeff2 13\nnqr 2\n",
  /* 10: d_31_19 */ "type d\nq 31\nn 38\nh 2\nr 19\na 2\nb 29\nk 6\nnk 887446300\nhk 2458300\ncoeff0 10\ncoeff1 11\ncoeff2 23\nnqr 3\n",
  /* 11: e_101_5 */ "type e\nq 101\nr 5\nh 4\na 25\nb 10\nexp2 2\nexp1 1\nsign1 1\nsign0 -1\n",
  /* 12: e_197_7 */ "type e\nq 197\nr 7\nh 4\na 5\nb 10\nexp2 3\nexp1 1\nsign1 -1\nsign0 1\n",
  /* 13: e_727_11 */ "type e\nq 727\nr 11\nh 6\na 44\nb 5\nexp2 3\nexp1 1\nsign1 1\nsign0 1\n",
  /* 14: f_19_13_0 */ "type f\nq 19\nr 13\nb 3\nbeta 2\nalpha0 14\nalpha1 9\n",
  /* 15: g_13_11 */ "type g\nq 13\nn 11\nh 1\nr 11\na 8\nb 7\nk 10\nnk 137858187907\nhk 1139323867\ncoeff0 6\ncoeff1 6\ncoeff2 8\ncoeff3 3\ncoeff4 0\nnqr 2\n",
  /* 16: g_17_11 */ "type g\nq 17\nn 11\nh 1\nr 11\na 8\nb 3\nk 10\nnk 2015991753875\nhk 16661088875\ncoeff0 6\ncoeff1 11\ncoeff2 4\ncoeff3 7\ncoeff4 7\nnqr 3\n",
  /* 17: g_29_11 */ "type g\nq 29\nn 22\nh 2\nr 11\na 6\nb 2\nk 10\nnk 420707212982276\nhk 3476919115556\ncoeff0 17\ncoeff1 6\ncoeff2 10\ncoeff3 17\ncoeff4 25\nnqr 2\n",
  /* 18: a1 n=23 = 10111b */ "type a1\np 367\nn 23\nl 16\n",
  /* 19: a1 n=53 = 110101b */ "type a1\np 211\nn 53\nl 4\n",
  /* 20: a1 n=91 = 1011011b = 7*13 */ "type a1\np 727\nn 91\nl 8\n",
};
