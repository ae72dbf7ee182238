function A=history 
 A=[ 
      1       2  +4.04812257e+00  +4.04812257e+00   2.4192e+00   
      2       3  +1.02413322e+00  +1.02413322e+00   2.4192e+00   
      3       4  +9.76154521e-01  +9.76154521e-01   1.9191e-02   
      4       5  +9.76154521e-01  +8.67894737e+00   1.9760e+00   
      5       6  +1.23259516e-32  +1.23259516e-32   2.1941e-16   
      6       8  +1.23259516e-32  +1.23259516e-32   8.2245e+04   
      7       9  +1.23259516e-32  +1.69396491e-17   4.1139e+04   
      7      10  +1.23259516e-32  +1.00000000e+03   4.1139e+04   
 ]; 