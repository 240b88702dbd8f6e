// Rendering gain matrices, recorded from the repository when the checks were
// written: input, output, rows, columns, n, then n times row column value.
R"(0+1+0 0+2+0 1 2 2 0 0 0.707107007504 0 1 0.707107007504)" "\n"
R"(0+1+0 0+5+0 1 6 1 0 2 1)" "\n"
R"(0+1+0 0+7+0 1 8 1 0 2 1)" "\n"
R"(0+1+0 2+5+0 1 8 1 0 2 1)" "\n"
R"(0+1+0 3+7+0 1 12 1 0 0 1)" "\n"
R"(0+1+0 3.1.2 1 6 1 0 2 1)" "\n"
R"(0+1+0 4+5+0 1 10 1 0 2 1)" "\n"
R"(0+1+0 4+5+1 1 11 1 0 2 1)" "\n"
R"(0+1+0 4+7+0 1 12 1 0 2 1)" "\n"
R"(0+1+0 4+9+0 1 14 1 0 2 1)" "\n"
R"(0+1+0 7.1.2 1 10 1 0 2 1)" "\n"
R"(0+1+0 7.1.5.4 1 17 1 0 2 1)" "\n"
R"(0+1+0 9+10+3 1 24 1 0 2 1)" "\n"
R"(0+1+0 9.1.6 1 16 1 0 2 1)" "\n"
R"(0+2+0 0+1+0 2 1 2 0 0 0.5 1 0 0.5)" "\n"
R"(0+2+0 0+5+0 2 6 2 0 0 1 1 1 1)" "\n"
R"(0+2+0 0+7+0 2 8 2 0 0 1 1 1 1)" "\n"
R"(0+2+0 2+5+0 2 8 2 0 0 1 1 1 1)" "\n"
R"(0+2+0 3+7+0 2 12 2 0 1 1 1 2 1)" "\n"
R"(0+2+0 3.1.2 2 6 2 0 0 1 1 1 1)" "\n"
R"(0+2+0 4+5+0 2 10 2 0 0 1 1 1 1)" "\n"
R"(0+2+0 4+5+1 2 11 2 0 0 1 1 1 1)" "\n"
R"(0+2+0 4+7+0 2 12 2 0 0 1 1 1 1)" "\n"
R"(0+2+0 4+9+0 2 14 2 0 0 1 1 1 1)" "\n"
R"(0+2+0 7.1.2 2 10 2 0 0 1 1 1 1)" "\n"
R"(0+2+0 7.1.5.4 2 17 2 0 0 1 1 1 1)" "\n"
R"(0+2+0 9+10+3 2 24 2 0 6 1 1 7 1)" "\n"
R"(0+2+0 9.1.6 2 16 2 0 6 1 1 7 1)" "\n"
R"(0+5+0 0+1+0 6 1 5 0 0 0.5 1 0 0.5 2 0 0.707107007504 4 0 0.353552997112 5 0 0.353552997112)" "\n"
R"(0+5+0 0+2+0 6 2 6 0 0 1 1 1 1 2 0 0.707107007504 2 1 0.707107007504 4 0 0.707107007504 5 1 0.707107007504)" "\n"
R"(0+5+0 0+7+0 6 8 6 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1)" "\n"
R"(0+5+0 2+5+0 6 8 6 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1)" "\n"
R"(0+5+0 3+7+0 6 12 6 0 1 1 1 2 1 2 0 1 3 10 1 4 7 1 5 8 1)" "\n"
R"(0+5+0 3.1.2 6 6 6 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 5 1 0.707106781187)" "\n"
R"(0+5+0 4+5+0 6 10 6 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1)" "\n"
R"(0+5+0 4+5+1 6 11 6 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1)" "\n"
R"(0+5+0 4+7+0 6 12 6 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1)" "\n"
R"(0+5+0 4+9+0 6 14 6 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1)" "\n"
R"(0+5+0 7.1.2 6 10 6 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1)" "\n"
R"(0+5+0 7.1.5.4 6 17 6 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1)" "\n"
R"(0+5+0 9+10+3 6 24 6 0 6 1 1 7 1 2 2 1 3 3 1 4 4 1 5 5 1)" "\n"
R"(0+5+0 9.1.6 6 16 6 0 6 1 1 7 1 2 2 1 3 3 1 4 4 1 5 5 1)" "\n"
R"(0+7+0 0+1+0 8 1 7 0 0 0.5 1 0 0.5 2 0 0.707107007504 4 0 0.353552997112 5 0 0.353552997112 6 0 0.353552997112 7 0 0.353552997112)" "\n"
R"(0+7+0 0+2+0 8 2 8 0 0 1 1 1 1 2 0 0.707107007504 2 1 0.707107007504 4 0 0.707107007504 5 1 0.707107007504 6 0 0.707107007504 7 1 0.707107007504)" "\n"
R"(0+7+0 0+5+0 8 6 10 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1)" "\n"
R"(0+7+0 2+5+0 8 8 10 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1)" "\n"
R"(0+7+0 3+7+0 8 12 8 0 1 1 1 2 1 2 0 1 3 10 1 4 5 1 5 6 1 6 7 1 7 8 1)" "\n"
R"(0+7+0 3.1.2 8 6 8 0 0 1 1 1 1 2 2 1 3 3 1 4 0 1.20710678119 5 1 1.20710678119 6 0 0.707106781187 7 1 0.707106781187)" "\n"
R"(0+7+0 4+5+0 8 10 10 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1)" "\n"
R"(0+7+0 4+5+1 8 11 10 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1)" "\n"
R"(0+7+0 4+7+0 8 12 8 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1)" "\n"
R"(0+7+0 4+9+0 8 14 8 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1)" "\n"
R"(0+7+0 7.1.2 8 10 8 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1)" "\n"
R"(0+7+0 7.1.5.4 8 17 8 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1)" "\n"
R"(0+7+0 9+10+3 8 24 8 0 6 1 1 7 1 2 2 1 3 3 1 4 10 1 5 11 1 6 4 1 7 5 1)" "\n"
R"(0+7+0 9.1.6 8 16 8 0 6 1 1 7 1 2 2 1 3 3 1 4 8 1 5 9 1 6 4 1 7 5 1)" "\n"
R"(2+5+0 0+1+0 8 1 7 0 0 0.5 1 0 0.5 2 0 0.707107007504 4 0 0.353552997112 5 0 0.353552997112 6 0 0.5 7 0 0.5)" "\n"
R"(2+5+0 0+2+0 8 2 8 0 0 1 1 1 1 2 0 0.707107007504 2 1 0.707107007504 4 0 0.707107007504 5 1 0.707107007504 6 0 1 7 1 1)" "\n"
R"(2+5+0 0+5+0 8 6 8 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 0 1 7 1 1)" "\n"
R"(2+5+0 0+7+0 8 8 8 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1 6 0 1 7 1 1)" "\n"
R"(2+5+0 3+7+0 8 12 8 0 1 1 1 2 1 2 0 1 3 10 1 4 7 1 5 8 1 6 3 1 7 4 1)" "\n"
R"(2+5+0 3.1.2 8 6 8 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 5 1 0.707106781187 6 4 1 7 5 1)" "\n"
R"(2+5+0 4+5+0 8 10 8 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1)" "\n"
R"(2+5+0 4+5+1 8 11 8 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1)" "\n"
R"(2+5+0 4+7+0 8 12 8 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1 6 8 1 7 9 1)" "\n"
R"(2+5+0 4+9+0 8 14 8 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1 6 8 1 7 9 1)" "\n"
R"(2+5+0 7.1.2 8 10 8 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1 6 8 1 7 9 1)" "\n"
R"(2+5+0 7.1.5.4 8 17 8 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1 6 8 1 7 9 1)" "\n"
R"(2+5+0 9+10+3 8 24 8 0 6 1 1 7 1 2 2 1 3 3 1 4 4 1 5 5 1 6 12 1 7 13 1)" "\n"
R"(2+5+0 9.1.6 8 16 8 0 6 1 1 7 1 2 2 1 3 3 1 4 4 1 5 5 1 6 10 1 7 11 1)" "\n"
R"(3.1.2 0+1+0 6 1 5 0 0 0.5 1 0 0.5 2 0 0.707107007504 4 0 0.5 5 0 0.5)" "\n"
R"(3.1.2 0+2+0 6 2 6 0 0 1 1 1 1 2 0 0.707107007504 2 1 0.707107007504 4 0 1 5 1 1)" "\n"
R"(3.1.2 0+5+0 6 6 6 0 0 1 1 1 1 2 2 1 3 3 1 4 0 1 5 1 1)" "\n"
R"(3.1.2 0+7+0 6 8 6 0 0 1 1 1 1 2 2 1 3 3 1 4 0 1 5 1 1)" "\n"
R"(3.1.2 2+5+0 6 8 6 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1)" "\n"
R"(3.1.2 3+7+0 6 12 6 0 1 1 1 2 1 2 0 1 3 10 1 4 3 1 5 4 1)" "\n"
R"(3.1.2 4+5+0 6 10 6 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1)" "\n"
R"(3.1.2 4+5+1 6 11 6 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1)" "\n"
R"(3.1.2 4+7+0 6 12 6 0 0 1 1 1 1 2 2 1 3 3 1 4 8 1 5 9 1)" "\n"
R"(3.1.2 4+9+0 6 14 6 0 0 1 1 1 1 2 2 1 3 3 1 4 8 1 5 9 1)" "\n"
R"(3.1.2 7.1.2 6 10 6 0 0 1 1 1 1 2 2 1 3 3 1 4 8 1 5 9 1)" "\n"
R"(3.1.2 7.1.5.4 6 17 6 0 0 1 1 1 1 2 2 1 3 3 1 4 8 1 5 9 1)" "\n"
R"(3.1.2 9+10+3 6 24 6 0 6 1 1 7 1 2 2 1 3 3 1 4 12 1 5 13 1)" "\n"
R"(3.1.2 9.1.6 6 16 6 0 6 1 1 7 1 2 2 1 3 3 1 4 10 1 5 11 1)" "\n"
R"(4+5+0 0+1+0 10 1 9 0 0 0.5 1 0 0.5 2 0 0.707107007504 4 0 0.353552997112 5 0 0.353552997112 6 0 0.5 7 0 0.5 8 0 0.353552997112 9 0 0.353552997112)" "\n"
R"(4+5+0 0+2+0 10 2 10 0 0 1 1 1 1 2 0 0.707107007504 2 1 0.707107007504 4 0 0.707107007504 5 1 0.707107007504 6 0 1 7 1 1 8 0 0.707107007504 9 1 0.707107007504)" "\n"
R"(4+5+0 0+5+0 10 6 10 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 0 1 7 1 1 8 4 1 9 5 1)" "\n"
R"(4+5+0 0+7+0 10 8 10 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1 6 0 1 7 1 1 8 6 1 9 7 1)" "\n"
R"(4+5+0 2+5+0 10 8 10 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 4 1 9 5 1)" "\n"
R"(4+5+0 3+7+0 10 12 12 0 1 1 1 2 1 2 0 1 3 10 1 4 7 1 5 8 1 6 3 1 7 4 1 8 3 0.707106781187 8 9 0.707106781187 9 4 0.707106781187 9 9 0.707106781187)" "\n"
R"(4+5+0 3.1.2 10 6 10 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 5 1 0.707106781187 6 4 1 7 5 1 8 4 0.707106781187 9 5 0.707106781187)" "\n"
R"(4+5+0 4+5+1 10 11 10 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 8 1 9 9 1)" "\n"
R"(4+5+0 4+7+0 10 12 10 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1 6 8 1 7 9 1 8 10 1 9 11 1)" "\n"
R"(4+5+0 4+9+0 10 14 10 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1 6 8 1 7 9 1 8 10 1 9 11 1)" "\n"
R"(4+5+0 7.1.2 10 10 10 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1 6 8 1 7 9 1 8 8 0.707106781187 9 9 0.707106781187)" "\n"
R"(4+5+0 7.1.5.4 10 17 10 0 0 1 1 1 1 2 2 1 3 3 1 4 6 1 5 7 1 6 8 1 7 9 1 8 10 1 9 11 1)" "\n"
R"(4+5+0 9+10+3 10 24 10 0 6 1 1 7 1 2 2 1 3 3 1 4 4 1 5 5 1 6 12 1 7 13 1 8 16 1 9 17 1)" "\n"
R"(4+5+0 9.1.6 10 16 10 0 6 1 1 7 1 2 2 1 3 3 1 4 4 1 5 5 1 6 10 1 7 11 1 8 12 1 9 13 1)" "\n"
R"(4+7+0 0+1+0 12 1 11 0 0 0.5 1 0 0.5 2 0 0.707107007504 4 0 0.353552997112 5 0 0.353552997112 6 0 0.353552997112 7 0 0.353552997112 8 0 0.5 9 0 0.5 10 0 0.353552997112 11 0 0.353552997112)" "\n"
R"(4+7+0 0+2+0 12 2 12 0 0 1 1 1 1 2 0 0.707107007504 2 1 0.707107007504 4 0 0.707107007504 5 1 0.707107007504 6 0 0.707107007504 7 1 0.707107007504 8 0 1 9 1 1 10 0 0.707107007504 11 1 0.707107007504)" "\n"
R"(4+7+0 0+5+0 12 6 14 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1 8 0 1 9 1 1 10 4 1 11 5 1)" "\n"
R"(4+7+0 0+7+0 12 8 12 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 0 1 9 1 1 10 6 1 11 7 1)" "\n"
R"(4+7+0 2+5+0 12 8 14 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1 8 6 1 9 7 1 10 4 1 11 5 1)" "\n"
R"(4+7+0 3+7+0 12 12 14 0 1 1 1 2 1 2 0 1 3 10 1 4 5 1 5 6 1 6 7 1 7 8 1 8 3 1 9 4 1 10 3 0.707106781187 10 9 0.707106781187 11 4 0.707106781187 11 9 0.707106781187)" "\n"
R"(4+7+0 3.1.2 12 6 12 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 5 1 0.707106781187 6 0 0.707106781187 7 1 0.707106781187 8 4 1 9 5 1 10 4 0.707106781187 11 5 0.707106781187)" "\n"
R"(4+7+0 4+5+0 12 10 14 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1 8 6 1 9 7 1 10 8 1 11 9 1)" "\n"
R"(4+7+0 4+5+1 12 11 14 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1 8 6 1 9 7 1 10 8 1 11 9 1)" "\n"
R"(4+7+0 4+9+0 12 14 12 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 8 1 9 9 1 10 10 1 11 11 1)" "\n"
R"(4+7+0 7.1.2 12 10 12 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 8 1 9 9 1 10 8 0.707106781187 11 9 0.707106781187)" "\n"
R"(4+7+0 7.1.5.4 12 17 12 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 8 1 9 9 1 10 10 1 11 11 1)" "\n"
R"(4+7+0 9+10+3 12 24 12 0 6 1 1 7 1 2 2 1 3 3 1 4 10 1 5 11 1 6 4 1 7 5 1 8 12 1 9 13 1 10 16 1 11 17 1)" "\n"
R"(4+7+0 9.1.6 12 16 12 0 6 1 1 7 1 2 2 1 3 3 1 4 8 1 5 9 1 6 4 1 7 5 1 8 10 1 9 11 1 10 12 1 11 13 1)" "\n"
R"(7.1.2 0+1+0 10 1 9 0 0 0.5 1 0 0.5 2 0 0.707107007504 4 0 0.353552997112 5 0 0.353552997112 6 0 0.353552997112 7 0 0.353552997112 8 0 0.5 9 0 0.5)" "\n"
R"(7.1.2 0+2+0 10 2 10 0 0 1 1 1 1 2 0 0.707107007504 2 1 0.707107007504 4 0 0.707107007504 5 1 0.707107007504 6 0 0.707107007504 7 1 0.707107007504 8 0 1 9 1 1)" "\n"
R"(7.1.2 0+5+0 10 6 12 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1 8 0 1 9 1 1)" "\n"
R"(7.1.2 0+7+0 10 8 10 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 0 1 9 1 1)" "\n"
R"(7.1.2 2+5+0 10 8 12 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1 8 6 1 9 7 1)" "\n"
R"(7.1.2 3+7+0 10 12 10 0 1 1 1 2 1 2 0 1 3 10 1 4 5 1 5 6 1 6 7 1 7 8 1 8 3 1 9 4 1)" "\n"
R"(7.1.2 3.1.2 10 6 10 0 0 1 1 1 1 2 2 1 3 3 1 4 0 1.20710678119 5 1 1.20710678119 6 0 0.707106781187 7 1 0.707106781187 8 4 1 9 5 1)" "\n"
R"(7.1.2 4+5+0 10 10 12 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1 8 6 1 9 7 1)" "\n"
R"(7.1.2 4+5+1 10 11 12 0 0 1 1 1 1 2 2 1 3 3 1 4 0 0.707106781187 4 4 0.707106781187 5 1 0.707106781187 5 5 0.707106781187 6 4 1 7 5 1 8 6 1 9 7 1)" "\n"
R"(7.1.2 4+7+0 10 12 10 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 8 1 9 9 1)" "\n"
R"(7.1.2 4+9+0 10 14 10 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 8 1 9 9 1)" "\n"
R"(7.1.2 7.1.5.4 10 17 10 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 8 1 9 9 1)" "\n"
R"(7.1.2 9+10+3 10 24 10 0 6 1 1 7 1 2 2 1 3 3 1 4 10 1 5 11 1 6 4 1 7 5 1 8 12 1 9 13 1)" "\n"
R"(7.1.2 9.1.6 10 16 10 0 6 1 1 7 1 2 2 1 3 3 1 4 8 1 5 9 1 6 4 1 7 5 1 8 10 1 9 11 1)" "\n"
R"(7.1.5.4 0+1+0 17 1 16 0 0 0.5 1 0 0.5 2 0 0.707107007504 4 0 0.707107007504 5 0 0.707107007504 6 0 0.707107007504 7 0 0.707107007504 8 0 0.707107007504 9 0 0.707107007504 10 0 0.707107007504 11 0 0.707107007504 12 0 0.707107007504 13 0 0.707107007504 14 0 0.707107007504 15 0 0.707107007504 16 0 0.707107007504)" "\n"
R"(7.1.5.4 0+2+0 17 2 30 0 0 1 1 1 1 2 0 0.707107007504 2 1 0.707107007504 4 0 0.707107007504 4 1 0.707107007504 5 0 0.707107007504 5 1 0.707107007504 6 0 0.707107007504 6 1 0.707107007504 7 0 0.707107007504 7 1 0.707107007504 8 0 0.707107007504 8 1 0.707107007504 9 0 0.707107007504 9 1 0.707107007504 10 0 0.707107007504 10 1 0.707107007504 11 0 0.707107007504 11 1 0.707107007504 12 0 0.707107007504 12 1 0.707107007504 13 0 0.707107007504 13 1 0.707107007504 14 0 0.707107007504 14 1 0.707107007504 15 0 0.707107007504 15 1 0.707107007504 16 0 0.707107007504 16 1 0.707107007504)" "\n"
R"(7.1.5.4 0+5+0 17 6 17 0 0 1 1 1 1 2 2 1 3 3 1 4 2 1 5 2 1 6 2 1 7 2 1 8 2 1 9 2 1 10 2 1 11 2 1 12 2 1 13 2 1 14 2 1 15 2 1 16 2 1)" "\n"
R"(7.1.5.4 0+7+0 17 8 17 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 2 1 9 2 1 10 2 1 11 2 1 12 2 1 13 2 1 14 2 1 15 2 1 16 2 1)" "\n"
R"(7.1.5.4 2+5+0 17 8 17 0 0 1 1 1 1 2 2 1 3 3 1 4 2 1 5 2 1 6 2 1 7 2 1 8 2 1 9 2 1 10 2 1 11 2 1 12 2 1 13 2 1 14 2 1 15 2 1 16 2 1)" "\n"
R"(7.1.5.4 3+7+0 17 12 17 0 1 1 1 2 1 2 0 1 3 10 1 4 5 1 5 6 1 6 7 1 7 8 1 8 3 1 9 4 1 10 0 1 11 0 1 12 0 1 13 0 1 14 0 1 15 0 1 16 0 1)" "\n"
R"(7.1.5.4 3.1.2 17 6 17 0 0 1 1 1 1 2 2 1 3 3 1 4 2 1 5 2 1 6 2 1 7 2 1 8 2 1 9 2 1 10 2 1 11 2 1 12 2 1 13 2 1 14 2 1 15 2 1 16 2 1)" "\n"
R"(7.1.5.4 4+5+0 17 10 17 0 0 1 1 1 1 2 2 1 3 3 1 4 2 1 5 2 1 6 2 1 7 2 1 8 2 1 9 2 1 10 2 1 11 2 1 12 2 1 13 2 1 14 2 1 15 2 1 16 2 1)" "\n"
R"(7.1.5.4 4+5+1 17 11 17 0 0 1 1 1 1 2 2 1 3 3 1 4 2 1 5 2 1 6 2 1 7 2 1 8 2 1 9 2 1 10 2 1 11 2 1 12 2 1 13 2 1 14 2 1 15 2 1 16 2 1)" "\n"
R"(7.1.5.4 4+7+0 17 12 17 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 8 1 9 9 1 10 10 1 11 11 1 12 2 1 13 2 1 14 2 1 15 2 1 16 2 1)" "\n"
R"(7.1.5.4 4+9+0 17 14 17 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 8 1 9 9 1 10 10 1 11 11 1 12 2 1 13 2 1 14 2 1 15 2 1 16 2 1)" "\n"
R"(7.1.5.4 7.1.2 17 10 17 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 8 1 9 9 1 10 8 0.707106781187 11 9 0.707106781187 12 2 1 13 2 1 14 2 1 15 2 1 16 2 1)" "\n"
R"(7.1.5.4 9+10+3 17 24 17 0 6 1 1 7 1 2 2 1 3 3 1 4 10 1 5 11 1 6 4 1 7 5 1 8 12 1 9 13 1 10 16 1 11 17 1 12 15 1 13 22 1 14 23 1 15 2 1 16 2 1)" "\n"
R"(7.1.5.4 9.1.6 17 16 20 0 6 1 1 7 1 2 2 1 3 3 1 4 8 1 5 9 1 6 4 1 7 5 1 8 10 1 9 11 1 10 12 1 11 13 1 12 10 0.5 12 11 0.5 12 12 0.5 12 13 0.5 13 6 1 14 7 1 15 2 1 16 2 1)" "\n"
R"(9+10+3 0+1+0 24 1 22 0 0 0.5 1 0 0.5 2 0 0.707107007504 4 0 0.353552997112 5 0 0.353552997112 6 0 0.5 7 0 0.5 8 0 0.5 10 0 0.353552997112 11 0 0.353552997112 12 0 0.5 13 0 0.5 14 0 0.707107007504 15 0 0.5 16 0 0.353552997112 17 0 0.353552997112 18 0 0.353552997112 19 0 0.353552997112 20 0 0.5 21 0 0.707107007504 22 0 0.5 23 0 0.5)" "\n"
R"(9+10+3 0+2+0 24 2 28 0 0 1 1 1 1 2 0 0.707107007504 2 1 0.707107007504 4 0 0.707107007504 5 1 0.707107007504 6 0 1 7 1 1 8 0 0.5 8 1 0.5 10 0 0.707107007504 11 1 0.707107007504 12 0 1 13 1 1 14 0 0.707107007504 14 1 0.707107007504 15 0 0.5 15 1 0.5 16 0 0.707107007504 17 1 0.707107007504 18 0 0.707107007504 19 1 0.707107007504 20 0 0.5 20 1 0.5 21 0 0.707107007504 21 1 0.707107007504 22 0 1 23 1 1)" "\n"
R"(9+10+3 0+5+0 24 6 35 0 0 0.816496580928 0 4 0.57735026919 1 1 0.816496580928 1 5 0.57735026919 2 2 1 3 3 0.707106781187 4 4 1 5 5 1 6 0 1 7 1 1 8 4 0.707106781187 8 5 0.707106781187 9 3 0.707106781187 10 0 0.57735026919 10 4 0.816496580928 11 1 0.57735026919 11 5 0.816496580928 12 0 1 13 1 1 14 2 1 15 0 0.5 15 1 0.5 15 4 0.5 15 5 0.5 16 4 1 17 5 1 18 0 0.707106781187 18 4 0.707106781187 19 1 0.707106781187 19 5 0.707106781187 20 4 0.707106781187 20 5 0.707106781187 21 2 1 22 0 1 23 1 1)" "\n"
R"(9+10+3 0+7+0 24 8 31 0 0 0.707106781187 0 4 0.707106781187 1 1 0.707106781187 1 5 0.707106781187 2 2 1 3 3 0.707106781187 4 6 1 5 7 1 6 0 1 7 1 1 8 6 0.707106781187 8 7 0.707106781187 9 3 0.707106781187 10 4 1 11 5 1 12 0 1 13 1 1 14 2 1 15 0 0.5 15 1 0.5 15 6 0.5 15 7 0.5 16 6 1 17 7 1 18 4 1 19 5 1 20 6 0.707106781187 20 7 0.707106781187 21 2 1 22 0 1 23 1 1)" "\n"
R"(9+10+3 2+5+0 24 8 36 0 0 0.816496580928 0 4 0.57735026919 1 1 0.816496580928 1 5 0.57735026919 2 2 1 3 3 0.707106781187 4 4 1 5 5 1 6 0 1 7 1 1 8 4 0.707106781187 8 5 0.707106781187 9 3 0.707106781187 10 0 0.57735026919 10 4 0.816496580928 11 1 0.57735026919 11 5 0.816496580928 12 6 1 13 7 1 14 6 0.707106781187 14 7 0.707106781187 15 4 0.5 15 5 0.5 15 6 0.5 15 7 0.5 16 4 1 17 5 1 18 4 0.707106781187 18 6 0.707106781187 19 5 0.707106781187 19 7 0.707106781187 20 4 0.707106781187 20 5 0.707106781187 21 2 1 22 0 1 23 1 1)" "\n"
R"(9+10+3 3+7+0 24 12 34 0 1 0.707106781187 0 5 0.707106781187 1 2 0.707106781187 1 6 0.707106781187 2 0 1 3 10 1 4 7 1 5 8 1 6 1 1 7 2 1 8 7 0.707106781187 8 8 0.707106781187 9 11 1 10 5 1 11 6 1 12 3 1 13 4 1 14 3 0.707106781187 14 4 0.707106781187 15 3 0.57735026919 15 4 0.57735026919 15 9 0.57735026919 16 3 0.57735026919 16 9 0.816496580928 17 4 0.57735026919 17 9 0.816496580928 18 3 0.816496580928 18 9 0.57735026919 19 4 0.816496580928 19 9 0.57735026919 20 9 1 21 0 1 22 1 1 23 2 1)" "\n"
R"(9+10+3 3.1.2 24 6 28 0 0 1.22474487139 1 1 1.22474487139 2 2 1 3 3 0.707106781187 4 0 0.707106781187 5 1 0.707106781187 6 0 1 7 1 1 8 0 0.5 8 1 0.5 9 3 0.707106781187 10 0 1.15470053838 11 1 1.15470053838 12 4 1 13 5 1 14 4 0.707106781187 14 5 0.707106781187 15 4 0.853553390593 15 5 0.853553390593 16 4 0.707106781187 17 5 0.707106781187 18 4 1.20710678119 19 5 1.20710678119 20 4 0.5 20 5 0.5 21 2 1 22 0 1 23 1 1)" "\n"
R"(9+10+3 4+5+0 24 10 36 0 0 0.816496580928 0 4 0.57735026919 1 1 0.816496580928 1 5 0.57735026919 2 2 1 3 3 0.707106781187 4 4 1 5 5 1 6 0 1 7 1 1 8 4 0.707106781187 8 5 0.707106781187 9 3 0.707106781187 10 0 0.57735026919 10 4 0.816496580928 11 1 0.57735026919 11 5 0.816496580928 12 6 1 13 7 1 14 6 0.707106781187 14 7 0.707106781187 15 6 0.5 15 7 0.5 15 8 0.5 15 9 0.5 16 8 1 17 9 1 18 6 0.707106781187 18 8 0.707106781187 19 7 0.707106781187 19 9 0.707106781187 20 8 0.707106781187 20 9 0.707106781187 21 2 1 22 0 1 23 1 1)" "\n"
R"(9+10+3 4+5+1 24 11 36 0 0 0.816496580928 0 4 0.57735026919 1 1 0.816496580928 1 5 0.57735026919 2 2 1 3 3 0.707106781187 4 4 1 5 5 1 6 0 1 7 1 1 8 4 0.707106781187 8 5 0.707106781187 9 3 0.707106781187 10 0 0.57735026919 10 4 0.816496580928 11 1 0.57735026919 11 5 0.816496580928 12 6 1 13 7 1 14 6 0.707106781187 14 7 0.707106781187 15 6 0.5 15 7 0.5 15 8 0.5 15 9 0.5 16 8 1 17 9 1 18 6 0.707106781187 18 8 0.707106781187 19 7 0.707106781187 19 9 0.707106781187 20 8 0.707106781187 20 9 0.707106781187 21 10 1 22 0 1 23 1 1)" "\n"
R"(9+10+3 4+7+0 24 12 34 0 0 0.707106781187 0 4 0.707106781187 1 1 0.707106781187 1 5 0.707106781187 2 2 1 3 3 0.707106781187 4 6 1 5 7 1 6 0 1 7 1 1 8 6 0.707106781187 8 7 0.707106781187 9 3 0.707106781187 10 4 1 11 5 1 12 8 1 13 9 1 14 8 0.707106781187 14 9 0.707106781187 15 8 0.5 15 9 0.5 15 10 0.5 15 11 0.5 16 10 1 17 11 1 18 8 0.707106781187 18 10 0.707106781187 19 9 0.707106781187 19 11 0.707106781187 20 10 0.707106781187 20 11 0.707106781187 21 2 1 22 0 1 23 1 1)" "\n"
R"(9+10+3 4+9+0 24 14 34 0 0 0.707106781187 0 4 0.707106781187 1 1 0.707106781187 1 5 0.707106781187 2 2 1 3 3 0.707106781187 4 6 1 5 7 1 6 0 1 7 1 1 8 6 0.707106781187 8 7 0.707106781187 9 3 0.707106781187 10 4 1 11 5 1 12 8 1 13 9 1 14 8 0.707106781187 14 9 0.707106781187 15 8 0.5 15 9 0.5 15 10 0.5 15 11 0.5 16 10 1 17 11 1 18 8 0.707106781187 18 10 0.707106781187 19 9 0.707106781187 19 11 0.707106781187 20 10 0.707106781187 20 11 0.707106781187 21 2 1 22 0 1 23 1 1)" "\n"
R"(9+10+3 7.1.2 24 10 30 0 0 0.707106781187 0 4 0.707106781187 1 1 0.707106781187 1 5 0.707106781187 2 2 1 3 3 0.707106781187 4 6 1 5 7 1 6 0 1 7 1 1 8 6 0.707106781187 8 7 0.707106781187 9 3 0.707106781187 10 4 1 11 5 1 12 8 1 13 9 1 14 8 0.707106781187 14 9 0.707106781187 15 8 0.853553390593 15 9 0.853553390593 16 8 0.707106781187 17 9 0.707106781187 18 8 1.20710678119 19 9 1.20710678119 20 8 0.5 20 9 0.5 21 2 1 22 0 1 23 1 1)" "\n"
R"(9+10+3 7.1.5.4 24 17 31 0 0 0.707106781187 0 4 0.707106781187 1 1 0.707106781187 1 5 0.707106781187 2 2 1 3 3 0.707106781187 4 6 1 5 7 1 6 0 1 7 1 1 8 6 0.707106781187 8 7 0.707106781187 9 3 0.707106781187 10 4 1 11 5 1 12 8 1 13 9 1 14 8 0.707106781187 14 9 0.707106781187 15 12 1 16 10 1 17 11 1 18 8 0.707106781187 18 10 0.707106781187 19 9 0.707106781187 19 11 0.707106781187 20 10 0.707106781187 20 11 0.707106781187 21 2 1 22 14 1 23 13 1)" "\n"
R"(9+10+3 9.1.6 24 16 30 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 4 0.707106781187 8 5 0.707106781187 9 3 0.707106781187 10 8 1 11 9 1 12 10 1 13 11 1 14 6 0.707106781187 14 7 0.707106781187 15 10 0.5 15 11 0.5 15 12 0.5 15 13 0.5 16 12 1 17 13 1 18 14 1 19 15 1 20 12 0.707106781187 20 13 0.707106781187 21 2 1 22 6 1 23 7 1)" "\n"
R"(9.1.6 0+1+0 16 1 15 0 0 0.5 1 0 0.5 2 0 0.707107007504 4 0 0.353552997112 5 0 0.353552997112 6 0 0.5 7 0 0.5 8 0 0.353552997112 9 0 0.353552997112 10 0 0.5 11 0 0.5 12 0 0.353552997112 13 0 0.353552997112 14 0 0.353552997112 15 0 0.353552997112)" "\n"
R"(9.1.6 0+2+0 16 2 16 0 0 1 1 1 1 2 0 0.707107007504 2 1 0.707107007504 4 0 0.707107007504 5 1 0.707107007504 6 0 1 7 1 1 8 0 0.707107007504 9 1 0.707107007504 10 0 1 11 1 1 12 0 0.707107007504 13 1 0.707107007504 14 0 0.707107007504 15 1 0.707107007504)" "\n"
R"(9.1.6 0+5+0 16 6 22 0 0 0.816496580928 0 4 0.57735026919 1 1 0.816496580928 1 5 0.57735026919 2 2 1 3 3 1 4 4 1 5 5 1 6 0 1 7 1 1 8 0 0.57735026919 8 4 0.816496580928 9 1 0.57735026919 9 5 0.816496580928 10 0 1 11 1 1 12 4 1 13 5 1 14 0 0.707106781187 14 4 0.707106781187 15 1 0.707106781187 15 5 0.707106781187)" "\n"
R"(9.1.6 0+7+0 16 8 18 0 0 0.707106781187 0 4 0.707106781187 1 1 0.707106781187 1 5 0.707106781187 2 2 1 3 3 1 4 6 1 5 7 1 6 0 1 7 1 1 8 4 1 9 5 1 10 0 1 11 1 1 12 6 1 13 7 1 14 4 1 15 5 1)" "\n"
R"(9.1.6 2+5+0 16 8 22 0 0 0.816496580928 0 4 0.57735026919 1 1 0.816496580928 1 5 0.57735026919 2 2 1 3 3 1 4 4 1 5 5 1 6 0 1 7 1 1 8 0 0.57735026919 8 4 0.816496580928 9 1 0.57735026919 9 5 0.816496580928 10 6 1 11 7 1 12 4 1 13 5 1 14 4 0.707106781187 14 6 0.707106781187 15 5 0.707106781187 15 7 0.707106781187)" "\n"
R"(9.1.6 3+7+0 16 12 22 0 1 0.707106781187 0 5 0.707106781187 1 2 0.707106781187 1 6 0.707106781187 2 0 1 3 10 1 4 7 1 5 8 1 6 1 1 7 2 1 8 5 1 9 6 1 10 3 1 11 4 1 12 3 0.57735026919 12 9 0.816496580928 13 4 0.57735026919 13 9 0.816496580928 14 3 0.816496580928 14 9 0.57735026919 15 4 0.816496580928 15 9 0.57735026919)" "\n"
R"(9.1.6 3.1.2 16 6 16 0 0 1.20710678119 1 1 1.20710678119 2 2 1 3 3 1 4 0 0.707106781187 5 1 0.707106781187 6 0 1 7 1 1 8 0 0.707106781187 9 1 0.707106781187 10 4 1 11 5 1 12 4 0.707106781187 13 5 0.707106781187 14 4 1.20710678119 15 5 1.20710678119)" "\n"
R"(9.1.6 4+5+0 16 10 22 0 0 0.816496580928 0 4 0.57735026919 1 1 0.816496580928 1 5 0.57735026919 2 2 1 3 3 1 4 4 1 5 5 1 6 0 1 7 1 1 8 0 0.57735026919 8 4 0.816496580928 9 1 0.57735026919 9 5 0.816496580928 10 6 1 11 7 1 12 8 1 13 9 1 14 6 0.707106781187 14 8 0.707106781187 15 7 0.707106781187 15 9 0.707106781187)" "\n"
R"(9.1.6 4+5+1 16 11 22 0 0 0.816496580928 0 4 0.57735026919 1 1 0.816496580928 1 5 0.57735026919 2 2 1 3 3 1 4 4 1 5 5 1 6 0 1 7 1 1 8 0 0.57735026919 8 4 0.816496580928 9 1 0.57735026919 9 5 0.816496580928 10 6 1 11 7 1 12 8 1 13 9 1 14 6 0.707106781187 14 8 0.707106781187 15 7 0.707106781187 15 9 0.707106781187)" "\n"
R"(9.1.6 4+7+0 16 12 20 0 0 0.707106781187 0 4 0.707106781187 1 1 0.707106781187 1 5 0.707106781187 2 2 1 3 3 1 4 6 1 5 7 1 6 0 1 7 1 1 8 4 1 9 5 1 10 8 1 11 9 1 12 10 1 13 11 1 14 8 0.707106781187 14 10 0.707106781187 15 9 0.707106781187 15 11 0.707106781187)" "\n"
R"(9.1.6 4+9+0 16 14 20 0 0 0.707106781187 0 4 0.707106781187 1 1 0.707106781187 1 5 0.707106781187 2 2 1 3 3 1 4 6 1 5 7 1 6 0 1 7 1 1 8 4 1 9 5 1 10 8 1 11 9 1 12 10 1 13 11 1 14 8 0.707106781187 14 10 0.707106781187 15 9 0.707106781187 15 11 0.707106781187)" "\n"
R"(9.1.6 7.1.2 16 10 18 0 0 0.707106781187 0 4 0.707106781187 1 1 0.707106781187 1 5 0.707106781187 2 2 1 3 3 1 4 6 1 5 7 1 6 0 1 7 1 1 8 4 1 9 5 1 10 8 1 11 9 1 12 8 0.707106781187 13 9 0.707106781187 14 8 1.20710678119 15 9 1.20710678119)" "\n"
R"(9.1.6 7.1.5.4 16 17 20 0 0 0.707106781187 0 4 0.707106781187 1 1 0.707106781187 1 5 0.707106781187 2 2 1 3 3 0.707106781187 4 6 1 5 7 1 6 0 1 7 1 1 8 4 1 9 5 1 10 8 1 11 9 1 12 10 1 13 11 1 14 8 0.707106781187 14 10 0.707106781187 15 9 0.707106781187 15 11 0.707106781187)" "\n"
R"(9.1.6 9+10+3 16 24 16 0 0 1 1 1 1 2 2 1 3 3 1 4 4 1 5 5 1 6 6 1 7 7 1 8 10 1 9 11 1 10 12 1 11 13 1 12 16 1 13 17 1 14 18 1 15 19 1)" "\n"
R"(A0 0+1+0 1 1 1 0 0 1)" "\n"
R"(A0 0+2+0 1 2 2 0 0 0.707100987434 0 1 0.707113027573)" "\n"
R"(A0 0+5+0 1 6 5 0 0 0.326335996389 0 1 0.326337993145 0 2 0.215131998062 0 4 0.608578026295 0 5 0.608572006226)" "\n"
R"(A0 0+7+0 1 8 7 0 0 0.338649988174 0 1 0.338654011488 0 2 0.263756990433 0 4 0.375467985868 0 5 0.375458985567 0 6 0.457785010338 0 7 0.457765996456)" "\n"
R"(A0 2+5+0 1 8 7 0 0 0.215451002121 0 1 0.215461999178 0 2 0.144966006279 0 4 0.645326972008 0 5 0.645318984985 0 6 0.163193002343 0 7 0.16317500174)" "\n"
R"(A0 3+7+0 1 12 10 0 0 0.221990004182 0 1 0.24224999547 0 2 0.242265000939 0 3 0.257503986359 0 4 0.257497996092 0 5 0.360900014639 0 6 0.360888004303 0 7 0.368968993425 0 8 0.368954986334 0 9 0.409846991301)" "\n"
R"(A0 3.1.2 1 6 5 0 0 0.671766996384 0 1 0.671772003174 0 2 0.144966006279 0 4 0.163193002343 0 5 0.16317500174)" "\n"
R"(A0 4+5+0 1 10 9 0 0 0.258913010359 0 1 0.258924990892 0 2 0.171792000532 0 4 0.555828988552 0 5 0.555813014507 0 6 0.196781992912 0 7 0.196759998798 0 8 0.265605002642 0 9 0.26561498642)" "\n"
R"(A0 4+5+1 1 11 10 0 0 0.137510001659 0 1 0.137520998716 0 2 0.0571416988969 0 4 0.58394497633 0 5 0.583930015564 0 6 0.195938006043 0 7 0.195915997028 0 8 0.264465004206 0 9 0.264476001263 0 10 0.245526000857)" "\n"
R"(A0 4+7+0 1 12 11 0 0 0.250737011433 0 1 0.250752985477 0 2 0.229766994715 0 4 0.318847000599 0 5 0.318850010633 0 6 0.373973995447 0 7 0.373946994543 0 8 0.290637999773 0 9 0.290621012449 0 10 0.291121989489 0 11 0.291128009558)" "\n"
R"(A0 4+9+0 1 14 13 0 0 0.219734996557 0 1 0.219766005874 0 2 0.168386995792 0 4 0.31931000948 0 5 0.319312989712 0 6 0.375907987356 0 7 0.375880986452 0 8 0.29771399498 0 9 0.297693014145 0 10 0.298112988472 0 11 0.298119992018 0 12 0.129546001554 0 13 0.129492998123)" "\n"
R"(A0 7.1.2 1 10 9 0 0 0.250737011433 0 1 0.250752985477 0 2 0.229766994715 0 4 0.318847000599 0 5 0.318850010633 0 6 0.373973995447 0 7 0.373946994543 0 8 0.496491998434 0 9 0.496479988098)" "\n"
R"(A0 7.1.5.4 1 17 16 0 0 0.0835464969277 0 1 0.0835615992546 0 2 0.147027999163 0 4 0.189779996872 0 5 0.189806997776 0 6 0.19622400403 0 7 0.196180000901 0 8 0.26378801465 0 9 0.263765990734 0 10 0.26436701417 0 11 0.264373987913 0 12 0.239986002445 0 13 0.345674991608 0 14 0.345703989267 0 15 0.346307009459 0 16 0.346298992634)" "\n"
R"(A0 9+10+3 1 24 22 0 0 0.0962044000626 0 1 0.0962112024426 0 2 0.0576865002513 0 4 0.343023985624 0 5 0.343019992113 0 6 0.0976267009974 0 7 0.0976307988167 0 8 0.343019992113 0 10 0.313306987286 0 11 0.31331500411 0 12 0.129865005612 0 13 0.129831001163 0 14 0.14535599947 0 15 0.319076001644 0 16 0.141620993614 0 17 0.141596004367 0 18 0.143475994468 0 19 0.143478006124 0 20 0.141605004668 0 21 0.235164999962 0 22 0.21965700388 0 23 0.219634994864)" "\n"
R"(A0 9.1.6 1 16 15 0 0 0.0962044000626 0 1 0.0962112024426 0 2 0.292851001024 0 4 0.585575997829 0 5 0.585572004318 0 6 0.420064985752 0 7 0.420046985149 0 8 0.313306987286 0 9 0.31331500411 0 10 0.289402991533 0 11 0.289368987083 0 12 0.401288986206 0 13 0.40126401186 0 14 0.143475994468 0 15 0.143478006124)" "\n"
R"(A1 0+1+0 4 1 4 0 0 0.623758018017 1 0 3.94854987462e-06 2 0 -1.95729995767e-07 3 0 0.0740277990699)" "\n"
R"(A1 0+2+0 4 2 8 0 0 0.623753011227 0 1 0.623763024807 1 0 0.572103977203 1 1 -0.572095990181 2 0 -8.58323005559e-07 2 1 4.66863014026e-07 3 0 0.0740140974522 3 1 0.0740415975451)" "\n"
R"(A1 0+5+0 4 6 20 0 0 0.250622004271 0 1 0.250624001026 0 2 0.165217995644 0 4 0.46737998724 0 5 0.467375010252 1 0 0.310683012009 1 1 -0.310685992241 1 2 9.15557029657e-06 1 4 0.451128005981 1 5 -0.451104998589 2 0 1.70906005224e-05 2 1 9.90912030829e-06 2 2 -4.072810043e-05 2 4 -4.40137000624e-06 2 5 1.07375999505e-05 3 0 0.307552009821 3 1 0.307563990355 3 2 0.265464007854 3 4 -0.430613011122 3 5 -0.430629998446)" "\n"
R"(A1 0+7+0 4 8 28 0 0 0.250470995903 0 1 0.250474005938 0 2 0.195078998804 0 4 0.277702987194 0 5 0.277696013451 0 6 0.338586002588 0 7 0.338571995497 1 0 0.251706987619 1 1 -0.251704007387 1 2 1.30516000354e-05 1 4 0.440005004406 1 5 -0.439999997616 1 6 0.259490996599 1 7 -0.259481012821 2 0 3.45309017575e-05 2 1 -9.18024034036e-06 2 2 -4.30110994785e-05 2 4 -1.83458996617e-05 2 5 -2.99177997931e-07 2 6 -8.06273965281e-06 2 7 -1.69745999301e-05 3 0 0.300186008215 3 1 0.300195991993 3 2 0.270282000303 3 4 0.0498124994338 3 5 0.0497926995158 3 6 -0.475436002016 3 7 -0.475432991982)" "\n"
R"(A1 2+5+0 4 8 28 0 0 0.16084100306 0 1 0.160849004984 0 2 0.108222000301 0 4 0.481756985188 0 5 0.481750994921 0 6 0.121829003096 0 7 0.121815003455 1 0 0.228393003345 1 1 -0.228398993611 1 2 1.23792997329e-05 1 4 0.466865003109 1 5 -0.466841995716 1 6 0.104336999357 1 7 -0.104327999055 2 0 -0.195226997137 2 1 -0.195237994194 2 2 -0.140756994486 2 4 0.00906085036695 2 5 0.00907452963293 2 6 0.237360998988 2 7 0.237361997366 3 0 0.212771996856 3 1 0.212797999382 3 2 0.203191995621 3 4 -0.434707999229 3 5 -0.434727013111 3 6 0.15392999351 3 7 0.153897002339)" "\n"
R"(A1 3+7+0 4 12 40 0 0 0.138206005096 0 1 0.15082000196 0 2 0.150829002261 0 3 0.160317003727 0 4 0.160312995315 0 5 0.224689006805 0 6 0.22468200326 0 7 0.229712992907 0 8 0.229703992605 0 9 0.255163013935 1 0 6.02514001002e-06 1 1 0.170413002372 1 2 -0.170423999429 1 3 0.178966000676 1 4 -0.178937003016 1 5 0.423617988825 1 6 -0.423610001802 1 7 0.192420005798 1 8 -0.192402005196 1 9 -1.10118999146e-05 2 0 -0.161553993821 2 1 -0.218355998397 2 2 -0.218386992812 2 3 0.305316001177 2 4 0.305328011513 2 5 -0.159944996238 2 6 -0.159942001104 2 7 -0.252721995115 2 8 -0.252709001303 2 9 0.502514004707 3 0 0.242264002562 3 1 0.200435996056 3 2 0.200435996056 3 3 0.177827000618 3 4 0.177815005183 3 5 0.00135759997647 3 6 0.00135152996518 3 7 -0.376625001431 3 8 -0.376621991396 3 9 -0.23832899332)" "\n"
R"(A1 3.1.2 4 6 20 0 0 0.5014950037 0 1 0.501498997211 0 2 0.108222000301 0 4 0.121829003096 0 5 0.121815003455 1 0 0.558516025543 1 1 -0.558506011963 1 2 1.23792997329e-05 1 4 0.104336999357 1 5 -0.104327999055 2 0 -0.188820004463 2 1 -0.188821002841 2 2 -0.140756994486 2 4 0.237360998988 2 5 0.237361997366 3 0 -0.0946128964424 3 1 -0.0946002006531 3 2 0.203191995621 3 4 0.15392999351 3 5 0.153897002339)" "\n"
R"(A1 4+5+0 4 10 36 0 0 0.171635001898 0 1 0.171643003821 0 2 0.113881997764 0 4 0.36846101284 0 5 0.36845099926 0 6 0.130447998643 0 7 0.130432993174 0 8 0.176070004702 0 9 0.176076993346 1 0 0.246698006988 1 1 -0.246702000499 1 2 1.30267999339e-05 1 4 0.36987298727 1 5 -0.369845986366 1 6 0.115594998002 1 7 -0.115583002567 1 8 0.159994006157 1 9 -0.159999996424 2 0 -0.203593999147 2 1 -0.203604996204 2 2 -0.148118004203 2 4 -0.291803002357 2 5 -0.291790008545 2 6 0.252175986767 2 7 0.252177000046 2 8 0.348214000463 2 9 0.348217993975 3 0 0.225694999099 3 1 0.225722998381 3 2 0.213818997145 3 4 -0.41279399395 3 5 -0.412804991007 3 6 0.163616001606 3 7 0.163580998778 3 8 -0.104080997407 3 9 -0.104093000293)" "\n"
R"(A1 4+5+1 4 11 40 0 0 0.0918824002147 0 1 0.091889500618 0 2 0.0381813012064 0 4 0.390183985233 0 5 0.390174001455 0 6 0.130924001336 0 7 0.130908995867 0 8 0.17671200633 0 9 0.176718994975 0 10 0.164057999849 1 0 0.187558993697 1 1 -0.187561005354 1 2 1.84869004443e-05 1 4 0.402043998241 1 5 -0.40202999115 1 6 0.116016000509 1 7 -0.116005003452 1 8 0.160577997565 1 9 -0.160583004355 1 10 -7.22174991097e-06 2 0 -0.0201392993331 2 1 -0.0201536007226 2 2 0.0107084996998 2 4 -0.332105010748 2 5 -0.332100987434 2 6 0.253096014261 2 7 0.253096014261 2 8 0.34948399663 2 9 0.349487990141 2 10 -0.326164007187 3 0 0.154186993837 3 1 0.154209002852 3 2 0.109048999846 3 4 -0.387580990791 3 5 -0.387594997883 3 6 0.164213001728 3 7 0.1641779989 3 8 -0.10446099937 3 9 -0.104473002255 3 10 0.229200005531)" "\n"
R"(A1 4+7+0 4 12 44 0 0 0.15324999392 0 1 0.153258994222 0 2 0.140432998538 0 4 0.194878995419 0 5 0.194879993796 0 6 0.228571996093 0 7 0.228556007147 0 8 0.177636995912 0 9 0.177626997232 0 10 0.177932992578 0 11 0.17793700099 1 0 0.173159003258 1 1 -0.173169001937 1 2 6.12221992924e-06 1 4 0.362255007029 1 5 -0.362266004086 1 6 0.18427400291 1 7 -0.184250995517 1 8 0.173665001988 1 9 -0.173630997539 1 10 0.166192993522 1 11 -0.166210994124 2 0 -0.221873998642 2 1 -0.221906006336 2 2 -0.164157003164 2 4 -0.217026993632 2 5 -0.217011004686 2 6 -0.263877004385 2 7 -0.263871997595 2 8 0.342431008816 2 9 0.342431008816 2 10 0.343234986067 2 11 0.34323400259 3 0 0.203665003181 3 1 0.203666001558 3 2 0.246167004108 3 4 0.0329935997725 3 5 0.0329676009715 3 6 -0.372343987226 3 7 -0.372328013182 3 8 0.174005001783 3 9 0.174005001783 3 10 -0.174429997802 3 11 -0.174428001046)" "\n"
R"(A1 4+9+0 4 14 52 0 0 0.133943006396 0 1 0.133962005377 0 2 0.102642998099 0 4 0.194640994072 0 5 0.194643005729 0 6 0.229140996933 0 7 0.229124993086 0 8 0.181476995349 0 9 0.181464001536 0 10 0.181720003486 0 11 0.181723996997 0 12 0.0789673030376 0 13 0.0789349004626 1 0 0.164268001914 1 1 -0.164296001196 1 2 -9.16057979339e-06 1 4 0.370768010616 1 5 -0.370775997639 1 6 0.188657999039 1 7 -0.188631996512 1 8 0.177425995469 1 9 -0.177390992641 1 10 0.169729992747 1 11 -0.16974799335 1 12 0.0267507005483 1 13 -0.0267030000687 2 0 -0.197953000665 2 1 -0.197955995798 2 2 -0.12154699862 2 4 -0.210262998939 2 5 -0.210246995091 2 6 -0.258352994919 2 7 -0.258347988129 2 8 0.349752992392 2 9 0.349750995636 2 10 0.350540995598 2 11 0.350538998842 2 12 -0.143794000149 2 13 -0.143805995584 3 0 0.163058996201 3 1 0.163089007139 3 2 0.161758005619 3 4 0.0336275994778 3 5 0.033601000905 3 6 -0.381134003401 3 7 -0.381117999554 3 8 0.177864000201 3 9 0.177855998278 3 10 -0.178142994642 3 11 -0.178139999509 3 12 0.0936060026288 3 13 0.0935247987509)" "\n"
R"(A1 7.1.2 4 10 36 0 0 0.15324999392 0 1 0.153258994222 0 2 0.140432998538 0 4 0.194878995419 0 5 0.194879993796 0 6 0.228571996093 0 7 0.228556007147 0 8 0.303454995155 0 9 0.303447008133 1 0 0.173159003258 1 1 -0.173169001937 1 2 6.12221992924e-06 1 4 0.362255007029 1 5 -0.362266004086 1 6 0.18427400291 1 7 -0.184250995517 1 8 0.291180998087 1 9 -0.29115998745 2 0 -0.221873998642 2 1 -0.221906006336 2 2 -0.164157003164 2 4 -0.217026993632 2 5 -0.217011004686 2 6 -0.263877004385 2 7 -0.263871997595 2 8 0.585134983063 2 9 0.585134029388 3 0 0.203665003181 3 1 0.203666001558 3 2 0.246167004108 3 4 0.0329935997725 3 5 0.0329676009715 3 6 -0.372343987226 3 7 -0.372328013182 3 8 0.050664499402 3 9 0.0506656989455)" "\n"
R"(A1 7.1.5.4 4 17 64 0 0 0.0477396994829 0 1 0.0477484017611 0 2 0.0840139985085 0 4 0.108442999423 0 5 0.10845900327 0 6 0.112125001848 0 7 0.112099997699 0 8 0.150731995702 0 9 0.150720000267 0 10 0.151062995195 0 11 0.151067003608 0 12 0.137132003903 0 13 0.197523996234 0 14 0.197540998459 0 15 0.197885006666 0 16 0.197879999876 1 0 0.0905779004097 1 1 -0.0905881971121 1 2 -1.97078998099e-06 1 4 0.290782988071 1 5 -0.2908180058 1 6 0.106155000627 1 7 -0.106096997857 1 8 0.202529996634 1 9 -0.202480003238 1 10 0.194221004844 1 11 -0.194229006767 1 12 -1.00758998087e-05 1 13 -0.193066999316 1 14 0.19309900701 1 15 0.184836000204 1 16 -0.184836998582 2 0 -5.01740987602e-06 2 1 -4.68035977974e-06 2 2 1.43162997119e-05 2 4 -4.44673014499e-06 2 5 -3.30084003508e-06 2 6 6.386949849e-07 2 7 -1.32355000915e-06 2 8 0.256870001554 2 9 0.25686699152 2 10 0.257766991854 2 11 0.257764995098 2 12 0.358193993568 2 13 -0.380813002586 2 14 -0.38080099225 2 15 -0.381718993187 2 16 -0.381693989038 3 0 0.101673997939 3 1 0.101694002748 3 2 0.23116800189 3 4 0.0150714004412 3 5 0.0150552997366 3 6 -0.271751999855 3 7 -0.271724998951 3 8 0.202906996012 3 9 0.202906996012 3 10 -0.203367993236 3 11 -0.203367993236 3 12 -1.52909997269e-05 3 13 0.193481996655 3 14 0.193509995937 3 15 -0.193979993463 3 16 -0.193982005119)" "\n"
R"(A1 9+10+3 4 24 88 0 0 0.0563451014459 0 1 0.0563490986824 0 2 0.0337858982384 0 4 0.200902998447 0 5 0.200901001692 0 6 0.0571780987084 0 7 0.0571805015206 0 8 0.200901001692 0 10 0.183497995138 0 11 0.183503001928 0 12 0.076059602201 0 13 0.0760395005345 0 14 0.0851321965456 0 15 0.186876997352 0 16 0.082944996655 0 17 0.0829301029444 0 18 0.0840310007334 0 19 0.0840324983001 0 20 0.0829353034496 0 21 0.137731000781 0 22 0.128648996353 0 23 0.128636002541 1 0 0.142441004515 1 1 -0.142444998026 1 2 1.77929996426e-05 1 4 0.253870993853 1 5 -0.253879010677 1 6 0.0750655010343 1 7 -0.0750693976879 1 8 -1.33248004204e-05 1 10 0.313145011663 1 11 -0.31316998601 1 12 0.119539000094 1 13 -0.11953099817 1 14 1.65124001796e-05 1 15 2.14090996451e-05 1 16 0.131433993578 1 17 -0.131422996521 1 18 0.189380005002 1 19 -0.18938100338 1 20 1.07352998384e-05 1 21 -7.40788982512e-06 1 22 0.113601997495 1 23 -0.113577999175 2 0 0.000440517003881 2 1 0.000424452009611 2 2 -3.09891001962e-05 2 4 -0.257111996412 2 5 -0.257091999054 2 6 3.79086009161e-06 2 7 2.03475992748e-05 2 8 -0.257084012032 2 10 -0.262362986803 2 11 -0.26234999299 2 12 0.129522994161 2 13 0.129488006234 2 14 0.136630997062 2 15 0.473682999611 2 16 0.135361000896 2 17 0.135324001312 2 18 0.135986998677 2 19 0.135986998677 2 20 0.135336995125 2 21 -0.27104601264 2 22 -0.263895004988 2 23 -0.26391300559 3 0 0.0746074020863 3 1 0.0746228024364 3 2 0.098418302834 3 4 -0.253874003887 3 5 -0.253879994154 3 6 0.144848003983 3 7 0.144848003983 3 8 -0.359039008617 3 10 -0.0199858993292 3 11 -0.0199839007109 3 12 0.119552999735 3 13 0.119516000152 3 14 0.192892998457 3 15 -8.70734038472e-06 3 16 -0.131450995803 3 17 -0.131442993879 3 18 -9.79191027e-05 3 19 -0.000104033999378 3 20 -0.185879006982 3 21 0.18450500071 3 22 0.113628998399 3 23 0.113581001759)" "\n"
R"(A1 9.1.6 4 16 60 0 0 0.0563451014459 0 1 0.0563490986824 0 2 0.171516999602 0 4 0.342961013317 0 5 0.342958986759 0 6 0.246023997664 0 7 0.246013998985 0 8 0.183497995138 0 9 0.183503001928 0 10 0.169497996569 0 11 0.16947799921 0 12 0.235027998686 0 13 0.235012993217 0 14 0.0840310007334 0 15 0.0840324983001 1 0 0.142441004515 1 1 -0.142444998026 1 2 1.0385099813e-05 1 4 0.253861993551 1 5 -0.253888994455 1 6 0.188679993153 1 7 -0.188636004925 1 8 0.313145011663 1 9 -0.31316998601 1 10 0.119549997151 1 11 -0.119520001113 1 12 0.131452992558 1 13 -0.13140399754 1 14 0.189380005002 1 15 -0.18938100338 2 0 0.000440517003881 2 1 0.000424452009611 2 2 -0.271077007055 2 4 -0.438897013664 2 5 -0.438877999783 2 6 -0.167279005051 2 7 -0.167281001806 2 8 -0.262362986803 2 9 -0.26234999299 2 10 0.366364985704 2 11 0.366329014301 2 12 0.46790099144 2 13 0.467862993479 2 14 0.135986998677 2 15 0.135986998677 3 0 0.0746074020863 3 1 0.0746228024364 3 2 0.282923012972 3 4 -0.507753014565 3 5 -0.507758975029 3 6 0.394872993231 3 7 0.394825011492 3 8 -0.0199858993292 3 9 -0.0199839007109 3 10 0.119548000395 3 11 0.11951199919 3 12 -0.262890994549 3 13 -0.262883007526 3 14 -9.79191027e-05 3 15 -0.000104033999378)" "\n"
R"(A2 0+1+0 9 1 9 0 0 0.611863970757 1 0 3.87325007978e-06 2 0 -1.91997997945e-07 3 0 0.0726161971688 4 0 4.09566018789e-06 5 0 8.21892990643e-06 6 0 0.0924006998539 7 0 7.94167021922e-07 8 0 0.158537998796)" "\n"
R"(A2 0+2+0 9 2 18 0 0 0.611859023571 0 1 0.611868977547 1 0 0.561194002628 1 1 -0.561187028885 2 0 -8.41956023123e-07 2 1 4.57959998812e-07 3 0 0.0726028010249 3 1 0.0726296976209 4 0 0.246501997113 4 1 -0.24649399519 5 0 2.35063998844e-06 5 1 1.40871998155e-05 6 0 0.0924040004611 6 1 0.0923975035548 7 0 -1.44148003756e-07 7 1 1.73247997282e-06 8 0 0.158528998494 8 1 0.158547997475)" "\n"
R"(A2 0+5+0 9 6 45 0 0 0.238781005144 0 1 0.2387830019 0 2 0.157413005829 0 4 0.445298999548 0 5 0.445295006037 1 0 0.296005010605 1 1 -0.296007990837 1 2 8.72302007338e-06 1 4 0.429814994335 1 5 -0.429793000221 2 0 1.62832002388e-05 2 1 9.44097973843e-06 2 2 -3.88039989048e-05 2 4 -4.19343996327e-06 2 5 1.02303001768e-05 3 0 0.29302200675 3 1 0.293033987284 3 2 0.252921998501 3 4 -0.410268992186 3 5 -0.410284996033 4 0 0.378037005663 4 1 -0.378035992384 4 2 3.62083992513e-05 4 4 -0.101075001061 4 5 0.10108499974 5 0 4.66759001938e-06 5 1 1.39363000926e-05 5 2 -1.3476699678e-05 5 4 2.54768997365e-06 5 5 1.6142299728e-06 6 0 0.124384000897 6 1 0.124404996634 6 2 0.16286200285 6 4 0.0873885974288 6 5 0.0873728021979 7 0 2.62364992523e-05 7 1 2.06627992156e-05 7 2 -4.44125998911e-06 7 4 -1.57986005433e-06 7 5 9.75122020463e-06 8 0 -0.0383109003305 8 1 -0.0382963009179 8 2 0.259550988674 8 4 -0.0773670002818 8 5 -0.0773864984512)" "\n"
R"(A2 0+7+0 9 8 63 0 0 0.220936998725 0 1 0.220938995481 0 2 0.172076001763 0 4 0.244957000017 0 5 0.244950994849 0 6 0.298660993576 0 7 0.298647999763 1 0 0.222026005387 1 1 -0.222023993731 1 2 1.15126003948e-05 1 4 0.388121008873 1 5 -0.388116002083 1 6 0.228892996907 1 7 -0.228883996606 2 0 3.04590994347e-05 2 1 -8.09773973742e-06 2 2 -3.79394004995e-05 2 4 -1.61825992109e-05 2 5 -2.63900005848e-07 2 6 -7.11200982551e-06 2 7 -1.49730003614e-05 3 0 0.264788985252 3 1 0.264797985554 3 2 0.238410994411 3 4 0.0439388006926 3 5 0.0439212992787 3 6 -0.419373989105 3 7 -0.419371008873 4 0 0.357259988785 4 1 -0.357255995274 4 2 3.42696985172e-05 4 4 0.070582896471 4 5 -0.0705500021577 4 6 -0.338028997183 4 7 0.33803498745 5 0 1.98001998797e-06 5 1 2.28618991969e-05 5 2 -2.28461994993e-05 5 4 -7.90414014773e-06 5 5 -9.68146014202e-06 5 6 -1.22967003335e-06 5 7 2.5620800443e-05 6 0 0.158397004008 6 1 0.158417999744 6 2 0.183381006122 6 4 0.145407006145 6 5 0.145416006446 6 6 0.127130001783 6 7 0.127094998956 7 0 1.92029001482e-05 7 1 8.66238042363e-06 7 2 -1.93590003619e-05 7 4 -1.28291003421e-05 7 5 1.39440999192e-05 7 6 7.00345981386e-06 7 7 -5.24845017935e-06 8 0 0.0531768985093 8 1 0.053196400404 8 2 0.269335985184 8 4 -0.386613994837 8 5 -0.386622995138 8 6 0.200395002961 8 7 0.200406998396)" "\n"
R"(A2 2+5+0 9 8 63 0 0 0.151598006487 0 1 0.151605993509 0 2 0.102003000677 0 4 0.454070985317 0 5 0.454066008329 0 6 0.114826999605 0 7 0.114814996719 1 0 0.21526800096 1 1 -0.215274006128 1 2 1.16679002531e-05 1 4 0.440034985542 1 5 -0.440012991428 1 6 0.0983413010836 1 7 -0.0983320996165 2 0 -0.184008002281 2 1 -0.18401800096 2 2 -0.13266800344 2 4 0.00854014977813 2 5 0.00855302996933 2 6 0.223719999194 2 7 0.223720997572 3 0 0.20054499805 3 1 0.20056900382 3 2 0.191514998674 3 4 -0.409727007151 3 5 -0.409743994474 3 6 0.145083993673 3 7 0.145052999258 4 0 0.283084988594 4 1 -0.283095002174 4 2 3.22324012814e-05 4 4 -0.0936553031206 4 5 0.0936608016491 4 6 0.125128000975 4 7 -0.125101998448 5 0 -0.130926996469 5 1 0.130948007107 5 2 -9.39023993851e-06 5 4 0.0049242801033 5 5 -0.00492139020935 5 6 0.142100006342 5 7 -0.142105996609 6 0 -0.00262946006842 6 1 -0.0026306300424 6 2 0.0359275005758 6 4 0.0913601964712 6 5 0.0913448035717 6 6 0.127586007118 6 7 0.127621993423 7 0 -0.15414300561 7 1 -0.154153004289 7 2 -0.119193002582 7 4 0.00400474993512 7 5 0.00401493022218 7 6 0.219516992569 7 7 0.219520002604 8 0 -0.0380115993321 8 1 -0.0379789993167 8 2 0.213323995471 8 4 -0.0849272012711 8 5 -0.0849452018738 8 6 0.0373506993055 8 7 0.0373161993921)" "\n"
R"(A2 3+7+0 9 12 90 0 0 0.119598001242 0 1 0.130512997508 0 2 0.130520999432 0 3 0.138732001185 0 4 0.138727992773 0 5 0.194435998797 0 6 0.194429993629 0 7 0.198783993721 0 8 0.198776006699 0 9 0.220807000995 1 0 5.21389983987e-06 1 1 0.14746800065 1 2 -0.147477000952 1 3 0.154869005084 1 4 -0.154844999313 1 5 0.36658000946 1 6 -0.366573989391 1 7 0.166511997581 1 8 -0.166495993733 1 9 -9.52919981501e-06 2 0 -0.139801993966 2 1 -0.188956007361 2 2 -0.188982993364 2 3 0.264207005501 2 4 0.264218002558 2 5 -0.138410001993 2 6 -0.13840700686 2 7 -0.218694001436 2 8 -0.218683004379 2 9 0.434854000807 3 0 0.20964500308 3 1 0.173448994756 3 2 0.173448994756 3 3 0.153883993626 3 4 0.153872996569 3 5 0.00117480999324 3 6 0.00116956001148 3 7 -0.325915008783 3 8 -0.325911998749 3 9 -0.206239998341 4 0 7.81221024226e-06 4 1 0.24755500257 4 2 -0.247559994459 4 3 0.132827997208 4 4 -0.132781997323 4 5 0.00180760002695 4 6 -0.00180884997826 4 7 -0.267648994923 4 8 0.267632991076 4 9 -9.61098976404e-06 5 0 -2.19967005251e-05 5 1 -0.112115003169 5 2 0.112120002508 5 3 0.236768007278 5 4 -0.236752003431 5 5 -0.062882296741 5 6 0.0628888010979 5 7 -0.100952997804 5 8 0.10095500201 5 9 -3.57955997288e-07 6 0 0.0326507985592 6 1 0.0387593992054 6 2 0.0387994013727 6 3 0.13480900228 6 4 0.134835004807 6 5 -0.0101594999433 6 6 -0.0101805999875 6 7 -0.0264081992209 6 8 -0.0264184009284 6 9 0.254440993071 7 0 -0.076481603086 7 1 -0.138038992882 7 2 -0.13806399703 7 3 0.222865000367 7 4 0.222881004214 7 5 -0.0661303028464 7 6 -0.0661121979356 7 7 0.164761006832 7 8 0.164752006531 7 9 -0.300794988871 8 0 0.244534000754 8 1 0.0349504984915 8 2 0.0349348001182 8 3 0.0109857004136 8 4 0.0109689999372 8 5 -0.356247007847 8 6 -0.356256991625 8 7 0.18602900207 8 8 0.186047002673 8 9 -0.00291279004887)" "\n"
R"(A2 3.1.2 9 6 45 0 0 0.472674995661 0 1 0.472678989172 0 2 0.102003000677 0 4 0.114826999605 0 5 0.114814996719 1 0 0.526419997215 1 1 -0.526409983635 1 2 1.16679002531e-05 1 4 0.0983413010836 1 5 -0.0983320996165 2 0 -0.177968993783 2 1 -0.177970007062 2 2 -0.13266800344 2 4 0.223719999194 2 5 0.223720997572 3 0 -0.0891757011414 3 1 -0.089163698256 3 2 0.191514998674 3 4 0.145083993673 3 5 0.145052999258 4 0 0.216860994697 4 1 -0.216866999865 4 2 3.22324012814e-05 4 4 0.125128000975 4 5 -0.125101998448 5 0 -0.12744499743 5 1 0.127468004823 5 2 -9.39023993851e-06 5 4 0.142100006342 5 5 -0.142105996609 6 0 0.061971899122 6 1 0.0619598999619 6 2 0.0359275005758 6 4 0.127586007118 6 5 0.127621993423 7 0 -0.151310995221 7 1 -0.151314005256 7 2 -0.119193002582 7 4 0.219516992569 7 5 0.219520002604 8 0 -0.09806419909 8 1 -0.0980442985892 8 2 0.213323995471 8 4 0.0373506993055 8 5 0.0373161993921)" "\n"
R"(A2 4+5+0 9 10 81 0 0 0.15589299798 0 1 0.155900001526 0 2 0.103436999023 0 4 0.334666997194 0 5 0.334657996893 0 6 0.118483997881 0 7 0.11846999824 0 8 0.159922003746 0 9 0.159927994013 1 0 0.224071994424 1 1 -0.224076002836 1 2 1.18320003821e-05 1 4 0.335949987173 1 5 -0.335925012827 1 6 0.104993000627 1 7 -0.10498200357 1 8 0.145319998264 1 9 -0.145325005054 2 0 -0.184920996428 2 1 -0.184930995107 2 2 -0.134533002973 2 4 -0.265040010214 2 5 -0.265027999878 2 6 0.229047000408 2 7 0.229047998786 2 8 0.316276997328 2 9 0.316280990839 3 0 0.204995006323 3 1 0.20501999557 3 2 0.19420799613 3 4 -0.374933987856 3 5 -0.374944001436 3 6 0.148609995842 3 7 0.148578003049 3 8 -0.0945352986455 3 9 -0.0945459008217 4 0 0.290946990252 4 1 -0.290955990553 4 2 3.26857007167e-05 4 4 -0.0906405001879 4 5 0.0906381979585 4 6 0.130302995443 4 7 -0.130274996161 4 8 -0.0243104007095 4 9 0.0243206992745 5 0 -0.12852999568 5 1 0.128552004695 5 2 -9.5223003882e-06 5 4 -0.17644199729 5 5 0.176442995667 5 6 0.149443998933 5 7 -0.149448007345 5 8 0.21380700171 5 9 -0.213805004954 6 0 -0.00678351009265 6 1 -0.00678357994184 6 2 0.0364327989519 6 4 -0.126359000802 6 5 -0.126362994313 6 6 0.126405000687 6 7 0.126442998648 6 8 0.186507999897 6 9 0.186492994428 7 0 -0.15508800745 7 1 -0.155098006129 7 2 -0.120869003236 7 4 0.0875018015504 7 5 0.0875158980489 7 6 0.22412699461 7 7 0.224130004644 7 8 -0.152870997787 7 9 -0.152876004577 8 0 -0.0449061989784 8 1 -0.0448707006872 8 2 0.216324001551 8 4 -0.016397299245 8 5 -0.0163960997015 8 6 0.0322717987001 8 7 0.0322378017008 8 8 -0.0680378973484 8 9 -0.0680665969849)" "\n"
R"(A2 4+5+1 9 11 90 0 0 0.083244599402 0 1 0.0832510963082 0 2 0.0345918983221 0 4 0.353502988815 0 5 0.353493988514 0 6 0.11861500144 0 7 0.118602000177 0 8 0.160099998116 0 9 0.160106003284 0 10 0.14863499999 1 0 0.169927000999 1 1 -0.169927999377 1 2 1.67488997249e-05 1 4 0.364248007536 1 5 -0.3642359972 1 6 0.105109997094 1 7 -0.105099000037 1 8 0.145482003689 1 9 -0.145486995578 1 10 -6.54283985568e-06 2 0 -0.0182460006326 2 1 -0.0182588994503 2 2 0.00970175955445 2 4 -0.300884008408 2 5 -0.300880998373 2 6 0.22930200398 2 7 0.229303002357 2 8 0.316628992558 2 9 0.316632986069 2 10 -0.295500993729 3 0 0.139691993594 3 1 0.139712005854 3 2 0.0987970009446 3 4 -0.351144999266 3 5 -0.351157993078 3 6 0.1487749964 3 7 0.148744001985 3 8 -0.0946405008435 3 9 -0.0946511030197 3 10 0.207653000951 4 0 0.22975499928 4 1 -0.22977399826 4 2 4.30971995229e-05 4 4 -0.0510332994163 4 5 0.0510247014463 4 6 0.130447998643 4 7 -0.130419999361 4 8 -0.0243373997509 4 9 0.0243478007615 4 10 5.14958992426e-06 5 0 -0.0293704997748 5 1 0.0293928999454 5 2 -2.54531005339e-06 5 4 -0.222055003047 5 5 0.222087994218 5 6 0.149609997869 5 7 -0.149614006281 5 8 0.214045003057 5 9 -0.214043006301 5 10 7.39056986276e-06 6 0 -0.159521996975 6 1 -0.159517005086 6 2 -0.0734629034996 6 4 -0.107704997063 6 5 -0.10769200325 6 6 0.126545995474 6 7 0.126582995057 6 8 0.186716005206 6 9 0.186700999737 6 10 0.17772500217 7 0 -0.0301860999316 7 1 -0.0302000995725 7 2 0.0252815000713 7 4 0.0508347004652 7 5 0.0508380010724 7 6 0.224377006292 7 7 0.224379003048 7 8 -0.153041005135 7 9 -0.153045997024 7 10 -0.318727999926 8 0 -0.0407335013151 8 1 -0.0407097004354 8 2 0.129719004035 8 4 -0.0137189999223 8 5 -0.0137248001993 8 6 0.0323077999055 8 7 0.0322736985981 8 8 -0.0681136026978 8 9 -0.0681423991919 8 10 0.108033999801)" "\n"
R"(A2 4+7+0 9 12 99 0 0 0.131381005049 0 1 0.131389006972 0 2 0.120393000543 0 4 0.167069002986 0 5 0.167070999742 0 6 0.195953994989 0 7 0.195940002799 0 8 0.152288004756 0 9 0.152279004455 0 10 0.152541995049 0 11 0.152545005083 1 0 0.148449003696 1 1 -0.148458003998 1 2 5.2485697779e-06 1 4 0.310561001301 1 5 -0.310571014881 1 6 0.157977998257 1 7 -0.157958000898 1 8 0.148883000016 1 9 -0.148854002357 1 10 0.14247700572 1 11 -0.142491996288 2 0 -0.190212994814 2 1 -0.19023899734 2 2 -0.140731006861 2 4 -0.186057001352 2 5 -0.186043992639 2 6 -0.226221993566 2 7 -0.226217001677 2 8 0.293565988541 2 9 0.293565988541 2 10 0.294254988432 2 11 0.294254004955 3 0 0.174602001905 3 1 0.174602001905 3 2 0.21103900671 3 4 0.0282853990793 3 5 0.0282630994916 3 6 -0.319209992886 3 7 -0.319195985794 3 8 0.149175003171 3 9 0.149174004793 3 10 -0.149538993835 3 11 -0.14953699708 4 0 0.249200999737 4 1 -0.249207004905 4 2 7.86415967013e-06 4 4 0.0485580004752 4 5 -0.0485219992697 4 6 -0.24938300252 4 7 0.249365001917 4 8 0.137440994382 4 9 -0.137404993176 4 10 -0.121418997645 4 11 0.121412999928 5 0 -0.112861000001 5 1 0.112865999341 5 2 -2.21430000238e-05 5 4 -0.15111400187 5 5 0.151096999645 5 6 -0.111942000687 5 7 0.111951999366 5 8 0.212213993073 5 9 -0.212191998959 5 10 0.206971004605 5 11 -0.206973001361 6 0 0.0390170998871 6 1 0.0390574000776 6 2 0.0328679010272 6 4 -0.00796156004071 6 5 -0.0079882601276 6 6 -0.0237575992942 6 7 -0.0237546991557 6 8 0.158265992999 6 9 0.158289000392 6 10 0.15850700438 6 11 0.158492997289 7 0 -0.138956993818 7 1 -0.138981997967 7 2 -0.0769902020693 7 4 -0.0264001004398 7 5 -0.0263953991234 7 6 0.178661003709 7 7 0.178663000464 7 8 0.212340995669 7 9 0.212374001741 7 10 -0.213839992881 7 11 -0.213844001293 8 0 0.0351829007268 8 1 0.0351671017706 8 2 0.246160000563 8 4 -0.321143001318 8 5 -0.321148991585 8 6 0.181921005249 8 7 0.181946992874 8 8 0.0005325510283 8 9 0.000522607995663 8 10 0.00031406400376 8 11 0.000285768997855)" "\n"
R"(A2 4+9+0 9 14 117 0 0 0.114597000182 0 1 0.114612996578 0 2 0.0878176018596 0 4 0.16652700305 0 5 0.166528999805 0 6 0.196043998003 0 7 0.196030005813 0 8 0.155265003443 0 9 0.155254006386 0 10 0.155472993851 0 11 0.155476003885 0 12 0.0675614029169 0 13 0.0675335973501 1 0 0.140541002154 1 1 -0.140564993024 1 2 -7.83742962085e-06 1 4 0.317214012146 1 5 -0.317221999168 1 6 0.161408007145 1 7 -0.16138599813 1 8 0.151798993349 1 9 -0.151767998934 1 10 0.145215004683 1 11 -0.145229995251 1 12 0.0228867996484 1 13 -0.0228461008519 2 0 -0.169360995293 2 1 -0.169363006949 2 2 -0.103991001844 2 4 -0.179893001914 2 5 -0.179878994823 2 6 -0.221037000418 2 7 -0.221031993628 2 8 0.299234986305 2 9 0.29923298955 2 10 0.299908995628 2 11 0.299906998873 2 12 -0.123024001718 2 13 -0.123034000397 3 0 0.139506995678 3 1 0.139532998204 3 2 0.138393998146 3 4 0.0287705007941 3 5 0.0287477001548 3 6 -0.326083004475 3 7 -0.326070010662 3 8 0.152172997594 3 9 0.152167007327 3 10 -0.152411997318 3 11 -0.152410000563 3 12 0.0800855979323 3 13 0.0800162032247 4 0 0.226915001869 4 1 -0.22695299983 4 2 -1.36260996442e-05 4 4 0.0495675988495 4 5 -0.0495280995965 4 6 -0.254581004381 4 7 0.254566013813 4 8 0.140211001039 4 9 -0.140174001455 4 10 -0.123751997948 4 11 0.123745001853 4 12 0.0562365986407 4 13 -0.05615689978 5 0 -0.108934998512 5 1 0.108920000494 5 2 -2.07458997465e-05 5 4 -0.155496001244 5 5 0.155472993851 5 6 -0.114946000278 5 7 0.114950999618 5 8 0.216324001551 5 9 -0.21629999578 5 10 0.210947006941 5 11 -0.210950002074 5 12 -0.0143608003855 5 13 0.0143478997052 6 0 0.041969999671 6 1 0.041979201138 6 2 0.0496908016503 6 4 -0.0201032999903 6 5 -0.0201306007802 6 6 -0.0359322987497 6 7 -0.0359291993082 6 8 0.16119800508 6 9 0.161223992705 6 10 0.161552995443 6 11 0.161539003253 6 12 0.0827189981937 6 13 0.0827542990446 7 0 -0.112363003194 7 1 -0.112347997725 7 2 -0.0194112006575 7 4 -0.0267686992884 7 5 -0.0267635993659 7 6 0.1837580055 7 7 0.183759003878 7 8 0.21649299562 7 9 0.216519996524 7 10 -0.217949002981 7 11 -0.217951998115 7 12 -0.0663141980767 7 13 -0.0663281008601 8 0 -0.00725055020303 8 1 -0.00724881980568 8 2 0.166976004839 8 4 -0.327369004488 8 5 -0.327374994755 8 6 0.185990005732 8 7 0.186015993357 8 8 0.000672164023854 8 9 0.000653665978462 8 10 0.000320099003147 8 11 0.000291259988444 8 12 0.0833496972919 8 13 0.0832936018705)" "\n"
R"(A2 7.1.2 9 10 81 0 0 0.131381005049 0 1 0.131389006972 0 2 0.120393000543 0 4 0.167069002986 0 5 0.167070999742 0 6 0.195953994989 0 7 0.195940002799 0 8 0.26015201211 0 9 0.260145008564 1 0 0.148449003696 1 1 -0.148458003998 1 2 5.2485697779e-06 1 4 0.310561001301 1 5 -0.310571014881 1 6 0.157977998257 1 7 -0.157958000898 1 8 0.24962900579 1 9 -0.249611005187 2 0 -0.190212994814 2 1 -0.19023899734 2 2 -0.140731006861 2 4 -0.186057001352 2 5 -0.186043992639 2 6 -0.226221993566 2 7 -0.226217001677 2 8 0.50163602829 2 9 0.501635015011 3 0 0.174602001905 3 1 0.174602001905 3 2 0.21103900671 3 4 0.0282853990793 3 5 0.0282630994916 3 6 -0.319209992886 3 7 -0.319195985794 3 8 0.04343470186 3 9 0.0434357002378 4 0 0.249200999737 4 1 -0.249207004905 4 2 7.86415967013e-06 4 4 0.0485580004752 4 5 -0.0485219992697 4 6 -0.24938300252 4 7 0.249365001917 4 8 0.0515842996538 4 9 -0.0515531003475 5 0 -0.112861000001 5 1 0.112865999341 5 2 -2.21430000238e-05 5 4 -0.15111400187 5 5 0.151096999645 5 6 -0.111942000687 5 7 0.111951999366 5 8 0.358563989401 5 9 -0.358545005322 6 0 0.0390170998871 6 1 0.0390574000776 6 2 0.0328679010272 6 4 -0.00796156004071 6 5 -0.0079882601276 6 6 -0.0237575992942 6 7 -0.0237546991557 6 8 0.270348012447 6 9 0.270359992981 7 0 -0.138956993818 7 1 -0.138981997967 7 2 -0.0769902020693 7 4 -0.0264001004398 7 5 -0.0263953991234 7 6 0.178661003709 7 7 0.178663000464 7 8 0.0611336007714 7 9 0.0611633993685 8 0 0.0351829007268 8 1 0.0351671017706 8 2 0.246160000563 8 4 -0.321143001318 8 5 -0.321148991585 8 6 0.181921005249 8 7 0.181946992874 8 8 0.000754627981223 8 9 0.000724677986)" "\n"
R"(A2 7.1.5.4 9 17 144 0 0 0.0385546013713 0 1 0.0385616011918 0 2 0.067849598825 0 4 0.0875788033009 0 5 0.0875910967588 0 6 0.0905522033572 0 7 0.0905319973826 0 8 0.121730998158 0 9 0.121720999479 0 10 0.121999002993 0 11 0.122001998127 0 12 0.110747002065 0 13 0.159520000219 0 14 0.159534007311 0 15 0.159812003374 0 16 0.159807994962 1 0 0.0731505975127 1 1 -0.0731590017676 1 2 -1.59161004376e-06 1 4 0.234835997224 1 5 -0.234863996506 1 6 0.0857304036617 1 7 -0.0856842026114 1 8 0.163562998176 1 9 -0.163523003459 1 10 0.15685300529 1 11 -0.156859993935 1 12 -8.13732003735e-06 1 13 -0.155920997262 1 14 0.155946999788 1 15 0.149272993207 1 16 -0.149274006486 2 0 -4.05205992138e-06 2 1 -3.77985998057e-06 2 2 1.15618995551e-05 2 4 -3.59117007065e-06 2 5 -2.66575989372e-06 2 6 5.15809006174e-07 2 7 -1.06890001916e-06 2 8 0.207448005676 2 9 0.20744599402 2 10 0.208173006773 2 11 0.208170995116 2 12 0.289276987314 2 13 -0.307543992996 2 14 -0.307534992695 2 15 -0.308275997639 2 16 -0.308254987001 3 0 0.082111902535 3 1 0.0821280032396 3 2 0.186691001058 3 4 0.012171600014 3 5 0.012158700265 3 6 -0.219466999173 3 7 -0.219445005059 3 8 0.163866996765 3 9 0.163866996765 3 10 -0.164240002632 3 11 -0.164240002632 3 12 -1.23489999169e-05 3 13 0.156256005168 3 14 0.15627899766 3 15 -0.156657993793 3 16 -0.15666000545 4 0 0.139357000589 4 1 -0.139366000891 4 2 -8.265170095e-07 4 4 0.0260981991887 4 5 -0.0260668005794 4 6 -0.160321995616 4 7 0.160281002522 4 8 0.148191004992 4 9 -0.148157998919 4 10 -0.131411999464 4 11 0.131400004029 4 12 6.00493012826e-06 4 13 -0.143953993917 4 14 0.143962994218 4 15 -0.127186998725 4 16 0.127193003893 5 0 -1.73120006366e-05 5 1 2.78699008049e-06 5 2 -9.080459904e-07 5 4 -7.85949032434e-06 5 5 5.04291983816e-06 5 6 2.89919995566e-07 5 7 -6.41236010779e-06 5 8 0.239556998014 5 9 -0.239511996508 5 10 0.234063997865 5 11 -0.23404699564 5 12 -1.74109991349e-05 5 13 0.222284004092 5 14 -0.222294002771 5 15 -0.216829001904 5 16 0.216817006469 6 0 -0.0878942012787 6 1 -0.087914802134 6 2 -0.12765699625 6 4 -0.172498002648 6 5 -0.172532007098 6 6 -0.185975000262 6 7 -0.185931995511 6 8 0.0369682013988 6 9 0.0369900986552 6 10 0.0372203998268 6 11 0.0372054986656 6 12 0.360246986151 6 13 0.165864005685 6 14 0.165794998407 6 15 0.16605399549 6 16 0.166020005941 7 0 1.55822999659e-06 7 1 -9.6210897027e-06 7 2 2.1779900635e-05 7 4 1.69924005604e-05 7 5 -3.88322996514e-06 7 6 3.03171987071e-07 7 7 6.31731018075e-06 7 8 0.239684998989 7 9 0.239720001817 7 10 -0.241238996387 7 11 -0.241245999932 7 12 -2.17330998566e-05 7 13 -0.222461000085 7 14 -0.222458004951 7 15 0.224028006196 7 16 0.224024996161 8 0 0.0167027991265 8 1 0.016715599224 8 2 0.227166995406 8 4 -0.258621990681 8 5 -0.258632987738 8 6 0.166477993131 8 7 0.166538998485 8 8 0.000556459010113 8 9 0.000546421972103 8 10 0.000332416995661 8 11 0.000303704000544 8 12 -4.84257998323e-06 8 13 0.000556781014893 8 14 0.000569137977436 8 15 0.000309441995341 8 16 0.000288868002826)" "\n"
R"(A2 9+10+3 9 24 198 0 0 0.0452722012997 0 1 0.0452753007412 0 2 0.027146300301 0 4 0.161421000957 0 5 0.16142000258 0 6 0.0459415018559 0 7 0.0459434017539 0 8 0.161419004202 0 10 0.147437006235 0 11 0.147440999746 0 12 0.0611122995615 0 13 0.0610961988568 0 14 0.0684019997716 0 15 0.150151997805 0 16 0.0666446015239 0 17 0.0666325986385 0 18 0.0675171986222 0 19 0.0675183981657 0 20 0.066636800766 0 21 0.110664002597 0 22 0.103367000818 0 23 0.103355996311 1 0 0.114448003471 1 1 -0.114450998604 1 2 1.42962999234e-05 1 4 0.203979998827 1 5 -0.203987002373 1 6 0.0603136010468 1 7 -0.0603168010712 1 8 -1.07061996459e-05 1 10 0.251605987549 1 11 -0.251626014709 1 12 0.0960474982858 1 13 -0.0960403978825 1 14 1.32674003908e-05 1 15 1.72018008016e-05 1 16 0.105604998767 1 17 -0.105595998466 1 18 0.152162998915 1 19 -0.152163997293 1 20 8.62560955284e-06 1 21 -5.95208985033e-06 1 22 0.0912771001458 1 23 -0.0912579968572 2 0 0.000353946001269 2 1 0.0003410379868 2 2 -2.48991000262e-05 2 4 -0.206584006548 2 5 -0.206568002701 2 6 3.04588002109e-06 2 7 1.63489003171e-05 2 8 -0.206561997533 2 10 -0.210804000497 2 11 -0.21079300344 2 12 0.104069001973 2 13 0.104041002691 2 14 0.10977999866 2 15 0.380594998598 2 16 0.108759999275 2 17 0.108730003238 2 18 0.109263002872 2 19 0.109261997044 2 20 0.108741000295 2 21 -0.217779994011 2 22 -0.212035000324 2 23 -0.212049007416 3 0 0.0599455982447 3 1 0.0599578991532 3 2 0.0790771022439 3 4 -0.203981995583 3 5 -0.203987002373 3 6 0.116383001208 3 7 0.116383001208 3 8 -0.288480997086 3 10 -0.0160581991076 3 11 -0.0160565990955 3 12 0.0960581973195 3 13 0.0960287973285 3 14 0.154984995723 3 15 -6.99617021382e-06 3 16 -0.105618000031 3 17 -0.105612002313 3 18 -7.86759992479e-05 3 19 -8.3588900452e-05 3 20 -0.149350002408 3 21 0.148246005177 3 22 0.0912986025214 3 23 0.0912597030401 4 0 0.139697000384 4 1 -0.139715999365 4 2 3.70603011106e-05 4 4 -0.318973988295 4 5 0.318978011608 4 6 0.140724003315 4 7 -0.140725001693 4 8 9.66961033555e-06 4 10 -0.0398175008595 4 11 0.039801299572 4 12 0.140586003661 4 13 -0.140569001436 4 14 2.25538005907e-05 4 15 6.37185985397e-06 4 16 -0.150684997439 4 17 0.150683999062 4 18 0.00033644400537 4 19 -0.000323237996781 4 20 -1.55478992383e-05 4 21 -7.55921018936e-06 4 22 0.135304003954 4 23 -0.135251000524 5 0 0.000973068992607 5 1 -0.000948294007685 5 2 -8.16074987142e-07 5 4 -0.122757002711 5 5 0.122758001089 5 6 -3.08458993459e-06 5 7 -1.40374004332e-05 5 8 3.90487002733e-06 5 10 -0.184558004141 5 11 0.184551000595 5 12 0.143834993243 5 13 -0.143812000751 5 14 2.18006007344e-05 5 15 3.07363006868e-05 5 16 0.151541993022 5 17 -0.151508003473 5 18 0.215966001153 5 19 -0.215951994061 5 20 1.48153003465e-05 5 21 8.28797965369e-06 5 22 -0.13355499506 5 23 0.133561998606 6 0 -0.0950450971723 6 1 -0.0950604006648 6 2 -0.0620920993388 6 4 0.0196056999266 6 5 0.0195880997926 6 6 -0.0965517982841 6 7 -0.0965427979827 6 8 0.0195933002979 6 10 0.0487506017089 6 11 0.048726901412 6 12 0.016485100612 6 13 0.0164698008448 6 14 0.00265392009169 6 15 0.442131012678 6 16 0.00644221017137 6 17 0.0064069298096 6 18 0.00454626977444 6 19 0.00454657990485 6 20 0.00642477022484 6 21 0.130860999227 6 22 0.144613996148 6 23 0.144690006971 7 0 0.000174119995791 7 1 0.00015555099526 7 2 -6.44090978312e-05 7 4 0.122746996582 7 5 0.122731998563 7 6 7.84037001722e-06 7 7 3.5627901525e-05 7 8 0.173570007086 7 10 -0.00319207995199 7 11 -0.0031814801041 7 12 0.143843993545 7 13 0.143827006221 7 14 0.217605993152 7 15 -8.34851016407e-06 7 16 -0.151546999812 7 17 -0.151546999812 7 18 -0.00019441099721 7 19 -0.000192268998944 7 20 -0.214296996593 7 21 -0.203089997172 7 22 -0.133579999208 7 23 -0.133570000529 8 0 -0.0964194983244 8 1 -0.096401900053 8 2 0.107555001974 8 4 -1.30469004489e-06 8 5 8.84551991476e-06 8 6 0.0989926978946 8 7 0.0989824011922 8 8 0.318985998631 8 10 -0.282121002674 8 11 -0.282133996487 8 12 1.88606009033e-05 8 13 -3.24016000377e-05 8 14 0.160126000643 8 15 2.11432006836e-06 8 16 2.23570004891e-05 8 17 1.34060001074e-05 8 18 -0.155401006341 8 19 -0.155407994986 8 20 0.150689005852 8 21 0.154856994748 8 22 2.37598997046e-05 8 23 5.60849002795e-07)" "\n"
R"(A2 9.1.6 9 16 135 0 0 0.0452722012997 0 1 0.0452753007412 0 2 0.137811005116 0 4 0.275561988354 0 5 0.275559991598 0 6 0.197676002979 0 7 0.197667002678 0 8 0.147437006235 0 9 0.147440999746 0 10 0.136188000441 0 11 0.136171996593 0 12 0.188840001822 0 13 0.188828006387 0 14 0.0675171986222 0 15 0.0675183981657 1 0 0.114448003471 1 1 -0.114450998604 1 2 8.34424008644e-06 1 4 0.203972995281 1 5 -0.203994005919 1 6 0.151600003242 1 7 -0.151565000415 1 8 0.251605987549 1 9 -0.251626014709 1 10 0.0960561037064 1 11 -0.0960317999125 1 12 0.105619996786 1 13 -0.105581000447 1 14 0.152162998915 1 15 -0.152163997293 2 0 0.000353946001269 2 1 0.0003410379868 2 2 -0.217804998159 2 4 -0.352645009756 2 5 -0.352629989386 2 6 -0.134405001998 2 7 -0.134406998754 2 8 -0.210804000497 2 9 -0.21079300344 2 10 0.294366002083 2 11 0.2943379879 2 12 0.375948995352 2 13 0.375918000937 2 14 0.109263002872 2 15 0.109261997044 3 0 0.0599455982447 3 1 0.0599578991532 3 2 0.227322995663 3 4 -0.407968997955 3 5 -0.407974004745 3 6 0.317272007465 3 7 0.317234009504 3 8 -0.0160581991076 3 9 -0.0160565990955 3 10 0.0960547029972 3 11 0.0960253030062 3 12 -0.211227998137 3 13 -0.211220994592 3 14 -7.86759992479e-05 3 15 -8.3588900452e-05 4 0 0.139697000384 4 1 -0.139715999365 4 2 2.95010995615e-05 4 4 -0.318967014551 4 5 0.318984985352 4 6 0.276044011116 4 7 -0.275959998369 4 8 -0.0398175008595 4 9 0.039801299572 4 10 0.140588998795 4 11 -0.140564993024 4 12 -0.150692999363 4 13 0.150676995516 4 14 0.00033644400537 4 15 -0.000323237996781 5 0 0.000973068992607 5 1 -0.000948294007685 5 2 7.47191006667e-06 5 4 -0.122754998505 5 5 0.122761003673 5 6 -0.133542999625 5 7 0.133563995361 5 8 -0.184558004141 5 9 0.184551000595 5 10 0.143849998713 5 11 -0.143795996904 5 12 0.15156699717 5 13 -0.151482000947 5 14 0.215966001153 5 15 -0.215951994061 6 0 -0.0950450971723 6 1 -0.0950604006648 6 2 0.0687690973282 6 4 0.0334601998329 6 5 0.0334426984191 6 6 0.0499383993447 6 7 0.0500233992934 6 8 0.0487506017089 6 9 0.048726901412 6 10 0.237551003695 6 11 0.237534999847 6 12 0.232050999999 6 13 0.232014998794 6 14 0.00454626977444 6 15 0.00454657990485 7 0 0.000174119995791 7 1 0.00015555099526 7 2 -0.20315399766 7 4 0.245480000973 7 5 0.245464995503 7 6 0.0202991999686 7 7 0.0203367006034 7 8 -0.00319207995199 7 9 -0.0031814801041 7 10 0.143840000033 7 11 0.143822997808 7 12 -0.303081989288 7 13 -0.303081989288 7 14 -0.00019441099721 7 15 -0.000192268998944 8 0 -0.0964194983244 8 1 -0.096401900053 8 2 0.262412011623 8 4 0.225556001067 8 5 0.225565999746 8 6 0.212243005633 8 7 0.212209001184 8 8 -0.282121002674 8 9 -0.282133996487 8 10 1.99177993636e-05 8 11 -3.13445016218e-05 8 12 0.106577001512 8 13 0.106568001211 8 14 -0.155401006341 8 15 -0.155407994986)" "\n"
R"(A3 0+1+0 16 1 16 0 0 0.610512018204 1 0 3.86469992009e-06 2 0 -1.91572993913e-07 3 0 0.0724558010697 4 0 4.08660980611e-06 5 0 8.20077002572e-06 6 0 0.092196598649 7 0 7.92413004547e-07 8 0 0.158188000321 9 0 5.33116008228e-06 10 0 3.17889004009e-07 11 0 -1.05778999568e-05 12 0 -8.21749017632e-06 13 0 0.0396540015936 14 0 -1.52839002112e-05 15 0 0.0495220981538)" "\n"
R"(A3 0+2+0 16 2 32 0 0 0.610507011414 0 1 0.610517024994 1 0 0.559955000877 1 1 -0.559947013855 2 0 -8.40095992771e-07 2 1 4.56949010186e-07 3 0 0.0724423974752 3 1 0.0724691972136 4 0 0.245957002044 4 1 -0.24594900012 5 0 2.34544995692e-06 5 1 1.40560996442e-05 6 0 0.0921998023987 6 1 0.0921932980418 7 0 -1.43828998489e-07 7 1 1.72864997694e-06 8 0 0.15817900002 8 1 0.158197999001 9 0 0.105907000601 9 1 -0.105896003544 10 0 -9.21199989534e-06 10 1 9.84778034763e-06 11 0 0.0144450999796 11 1 -0.0144662996754 12 0 6.21298022452e-06 12 1 -2.26480005949e-05 13 0 0.0396431982517 13 1 0.0396647006273 14 0 -1.75257991941e-05 14 1 -1.30420003188e-05 15 0 0.0495199002326 15 1 0.0495242998004)" "\n"
R"(A3 0+5+0 16 6 80 0 0 0.233807995915 0 1 0.233809992671 0 2 0.154134005308 0 4 0.436024010181 0 5 0.436019986868 1 0 0.289840012789 1 1 -0.289842009544 1 2 8.54134032124e-06 1 4 0.420863002539 1 5 -0.420841008425 2 0 1.59440005518e-05 2 1 9.24433970795e-06 2 2 -3.79958000849e-05 2 4 -4.10608981838e-06 2 5 1.00172001112e-05 3 0 0.286918997765 3 1 0.286929994822 3 2 0.247654005885 3 4 -0.401724010706 3 5 -0.401740014553 4 0 0.37016299367 4 1 -0.37016299367 4 2 3.54543008143e-05 4 4 -0.0989701002836 4 5 0.0989795029163 5 0 4.57037003798e-06 5 1 1.36460002977e-05 5 2 -1.31959995997e-05 5 4 2.49463005275e-06 5 5 1.5806100464e-06 6 0 0.12179300189 6 1 0.121813997626 6 2 0.159468993545 6 4 0.0855683982372 6 5 0.0855529010296 7 0 2.56900002569e-05 7 1 2.02324008569e-05 7 2 -4.34875983046e-06 7 4 -1.54695999299e-06 7 5 9.54812003329e-06 8 0 -0.037512999028 8 1 -0.0374987013638 8 2 0.254144996405 8 4 -0.0757556036115 8 5 -0.0757746994495 9 0 0.172536998987 9 1 -0.172537997365 9 2 4.07533007092e-05 9 4 -0.163524001837 9 5 0.163537994027 10 0 5.77928994971e-06 10 1 5.10770996698e-06 10 2 -1.49779998537e-05 10 4 -1.5196899767e-05 10 5 5.10899008077e-06 11 0 0.0246229004115 11 1 -0.0246485006064 11 2 -1.85696001154e-06 11 4 0.0518447011709 11 5 -0.0518385991454 12 0 2.48059004662e-05 12 1 2.24039995373e-05 12 2 -8.99311999092e-05 12 4 9.60992019827e-06 12 5 2.64969003183e-06 13 0 0.0999409034848 13 1 0.0999580025673 13 2 0.0895494967699 13 4 -0.039960000664 13 5 -0.0399651005864 14 0 -1.01778996395e-05 14 1 3.96795996949e-07 14 2 -2.56456005445e-05 14 4 7.87289991422e-06 14 5 -4.18471017838e-06 15 0 -0.179110005498 15 1 -0.179123997688 15 2 0.27009999752 15 4 -0.0178542006761 15 5 -0.0178398005664)" "\n"
R"(A3 0+7+0 16 8 112 0 0 0.213372007012 0 1 0.213375002146 0 2 0.16618399322 0 4 0.236570000648 0 5 0.236563995481 0 6 0.288435012102 0 7 0.288423001766 1 0 0.214424997568 1 1 -0.214422002435 1 2 1.11184999696e-05 1 4 0.374832004309 1 5 -0.374828010798 1 6 0.221055999398 1 7 -0.221046999097 2 0 2.941620005e-05 2 1 -7.82049028203e-06 2 2 -3.66403983207e-05 2 4 -1.56285004778e-05 2 5 -2.54864005456e-07 2 6 -6.86849989506e-06 2 7 -1.44604000525e-05 3 0 0.255722999573 3 1 0.255731999874 3 2 0.230248004198 3 4 0.0424344018102 3 5 0.0424175001681 3 6 -0.40501499176 3 7 -0.405012995005 4 0 0.345028012991 4 1 -0.345023989677 4 2 3.30963011947e-05 4 4 0.0681661963463 4 5 -0.0681345015764 4 6 -0.326456010342 4 7 0.326460987329 5 0 1.91222989088e-06 5 1 2.20792007894e-05 5 2 -2.2063999495e-05 5 4 -7.63350999478e-06 5 5 -9.34998024604e-06 5 6 -1.18756997836e-06 5 7 2.47436000791e-05 6 0 0.152973994613 6 1 0.152994006872 6 2 0.177102997899 6 4 0.140428006649 6 5 0.14043700695 6 6 0.12277700007 6 7 0.122744001448 7 0 1.85453991435e-05 7 1 8.36578965391e-06 7 2 -1.8696200641e-05 7 4 -1.23898998936e-05 7 5 1.34666997837e-05 7 6 6.76368017594e-06 7 7 -5.06874994244e-06 8 0 0.0513562001288 8 1 0.0513750016689 8 2 0.260114014149 8 4 -0.373376995325 8 5 -0.37338501215 8 6 0.193534001708 8 7 0.193544998765 9 0 0.255145996809 9 1 -0.255160987377 9 2 3.88156986446e-05 9 4 -0.269942998886 9 5 0.269966989756 9 6 0.17753200233 9 7 -0.177534997463 10 0 1.29179998112e-05 10 1 4.42598002337e-06 10 2 -1.68516999111e-05 10 4 -5.81525000598e-07 10 5 -3.32824993166e-06 10 6 -1.67303005583e-06 10 7 1.10285000119e-05 11 0 0.0142644001171 11 1 -0.0142601002008 11 2 7.32965008865e-06 11 4 0.0243874005973 11 5 -0.0243765003979 11 6 0.0160930994898 11 7 -0.0160648003221 12 0 8.54540994624e-05 12 1 2.62320991169e-05 12 2 -5.08504017489e-05 12 4 -1.39256999319e-05 12 5 1.12152001748e-05 12 6 2.02379997063e-05 12 7 1.84955006262e-05 13 0 0.0308761000633 13 1 0.0308963991702 13 2 0.0255430992693 13 4 0.0192272998393 13 5 0.0192243997008 13 6 -0.0300239995122 13 7 -0.0300257001072 14 0 1.5813000573e-05 14 1 3.78723998438e-05 14 2 -4.75573006042e-06 14 4 -2.52232007369e-06 14 5 -8.14448014808e-07 14 6 1.46102001963e-05 14 7 3.54098010575e-05 15 0 -0.139695003629 15 1 -0.139690995216 15 2 0.274143993855 15 4 -0.0629388988018 15 5 -0.0629289001226 15 6 0.0375305004418 15 7 0.037530399859)" "\n"
R"(A3 2+5+0 16 8 112 0 0 0.147542998195 0 1 0.147551000118 0 2 0.0992743000388 0 4 0.441926002502 0 5 0.441920995712 0 6 0.111755996943 0 7 0.111744001508 1 0 0.20950999856 1 1 -0.209516003728 1 2 1.13557998702e-05 1 4 0.42826500535 1 5 -0.428243994713 1 6 0.0957109034061 1 7 -0.0957019999623 2 0 -0.179085999727 2 1 -0.179095998406 2 2 -0.129118993878 2 4 0.00831171963364 2 5 0.00832425989211 2 6 0.217736005783 2 7 0.217737004161 3 0 0.195180997252 3 1 0.195204004645 3 2 0.186391994357 3 4 -0.398766994476 3 5 -0.398784995079 3 6 0.141203001142 3 7 0.141173005104 4 0 0.275514006615 4 1 -0.275523006916 4 2 3.13702985295e-05 4 4 -0.0911502987146 4 5 0.0911557003856 4 6 0.121780999005 4 7 -0.121756002307 5 0 -0.127425000072 5 1 0.12744499743 5 2 -9.13908024813e-06 5 4 0.00479257013649 5 5 -0.00478975987062 5 6 0.138299003243 5 7 -0.13830499351 6 0 -0.00255913008004 6 1 -0.00256027001888 6 2 0.0349665991962 6 4 0.088916502893 6 5 0.0889016017318 6 6 0.124173000455 6 7 0.12420900166 7 0 -0.150020003319 7 1 -0.150030001998 7 2 -0.116005003452 7 4 0.00389762991108 7 5 0.00390753988177 7 6 0.213644996285 7 7 0.213649004698 8 0 -0.0369949005544 8 1 -0.036963198334 8 2 0.207617998123 8 4 -0.0826556012034 8 5 -0.0826731026173 8 6 0.0363516993821 8 7 0.0363181009889 9 0 0.126115992665 9 1 -0.126133993268 9 2 3.94595990656e-05 9 4 -0.164740994573 9 5 0.164745002985 9 6 0.0678595006466 9 7 -0.067822098732 10 0 -0.152741000056 10 1 0.152742996812 10 2 -2.87941002171e-05 10 4 0.00734130991623 10 5 -0.00735804997385 10 6 0.173252001405 10 7 -0.173245996237 11 0 -0.0538907982409 11 1 0.0538742989302 11 2 4.17937008024e-06 11 4 0.0455126985908 11 5 -0.0455055981874 11 6 0.0648593977094 11 7 -0.0648820996284 12 0 -0.0186835993081 12 1 -0.0186963994056 12 2 -0.065788500011 12 4 0.00157174002379 12 5 0.00156663998496 12 6 -0.0112965004519 12 7 -0.0112875001505 13 0 -0.00584076996893 13 1 -0.00584700983018 13 2 -0.0179099999368 13 4 -0.0406651012599 13 5 -0.0406703986228 13 6 0.123631998897 13 7 0.123677000403 14 0 0.0114489998668 14 1 0.0114562995732 14 2 -0.0836478993297 14 4 -0.00774209015071 14 5 -0.00775178987533 14 6 0.0436275005341 14 7 0.0436323992908 15 0 -0.153961002827 15 1 -0.153935998678 15 2 0.221708998084 15 4 -0.0284148994833 15 5 -0.0283998008817 15 6 -0.00588276004419 15 7 -0.00593294017017)" "\n"
R"(A3 3+7+0 16 12 160 0 0 0.114030003548 0 1 0.124436996877 0 2 0.124444000423 0 3 0.132273003459 0 4 0.132268995047 0 5 0.185384005308 0 6 0.185377001762 0 7 0.189529001713 0 8 0.189521998167 0 9 0.210527002811 1 0 4.97114979225e-06 1 1 0.140603005886 1 2 -0.140610992908 1 3 0.147659003735 1 4 -0.147634997964 1 5 0.349512994289 1 6 -0.349507004023 1 7 0.158758997917 1 8 -0.158745005727 1 9 -9.08554011403e-06 2 0 -0.133293002844 2 1 -0.180159002542 2 2 -0.180184006691 2 3 0.251906007528 2 4 0.251915991306 2 5 -0.131965994835 2 6 -0.131962999701 2 7 -0.208511993289 2 8 -0.20850199461 2 9 0.414608001709 3 0 0.19988399744 3 1 0.165372997522 3 2 0.1653739959 3 3 0.146718993783 3 4 0.146708995104 3 5 0.00112011004239 3 6 0.00111511000432 3 7 -0.310741007328 3 8 -0.310739010572 3 9 -0.196638002992 4 0 7.44849012335e-06 4 1 0.23602899909 4 2 -0.23603400588 4 3 0.126644000411 4 4 -0.126599997282 4 5 0.00172344001476 4 6 -0.00172463001218 4 7 -0.255187988281 4 8 0.255172997713 4 9 -9.1635301942e-06 5 0 -2.09726003959e-05 5 1 -0.106894999743 5 2 0.106899999082 5 3 0.225745007396 5 4 -0.225729003549 5 5 -0.059954598546 5 6 0.0599608011544 5 7 -0.0962529033422 5 8 0.0962544009089 5 9 -3.41289990047e-07 6 0 0.0311306007206 6 1 0.0369548015296 6 2 0.0369929000735 6 3 0.128533005714 6 4 0.128557994962 6 5 -0.00968653988093 6 6 -0.00970656983554 6 7 -0.0251787006855 6 8 -0.0251883994788 6 9 0.242595002055 7 0 -0.0729207992554 7 1 -0.13161200285 7 2 -0.131635993719 7 3 0.212488994002 7 4 0.212503999472 7 5 -0.0630514025688 7 6 -0.0630341023207 7 7 0.157089993358 7 8 0.157080993056 7 9 -0.28679099679 8 0 0.233149006963 8 1 0.0333231985569 8 2 0.033308301121 8 3 0.010474300012 8 4 0.0104582998902 8 5 -0.339661002159 8 6 -0.339670985937 8 7 0.17736800015 8 8 0.177385002375 8 9 -0.00277717993595 9 0 4.96898019264e-06 9 1 0.182868003845 9 2 -0.182859003544 9 3 0.0383603982627 9 4 -0.0383084006608 9 5 -0.234148994088 9 6 0.234170004725 9 7 0.172066003084 9 8 -0.172080993652 9 9 2.82968994725e-05 10 0 -3.86227002309e-05 10 1 -0.162514001131 10 2 0.16251899302 10 3 0.159365996718 10 4 -0.159339994192 10 5 -0.0992116034031 10 6 0.0991863980889 10 7 0.120256997645 10 8 -0.120254002512 10 9 -1.32322002173e-05 11 0 2.55400991591e-05 11 1 -0.0331009998918 11 2 0.0330841988325 11 3 0.140150994062 11 4 -0.140162006021 11 5 -0.0490985997021 11 6 0.0491495989263 11 7 -0.0391284003854 11 8 0.0390984006226 11 9 1.77792007889e-05 12 0 -0.0844933018088 12 1 -0.00998734030873 12 2 -0.0100266998634 12 3 -0.0388684011996 12 4 -0.0388709008694 12 5 -0.102583996952 12 6 -0.102583996952 12 7 -0.0175630003214 12 8 -0.0175531003624 12 9 -0.0266120992601 13 0 -0.0606039986014 13 1 -0.0299676004797 13 2 -0.0299412999302 13 3 0.102769002318 13 4 0.102797999978 13 5 -0.014520900324 13 6 -0.0145744998008 13 7 0.0806132033467 13 8 0.0806306004524 13 9 -0.139421999454 14 0 -0.0667155981064 14 1 -0.0229988005012 14 2 -0.0230342000723 14 3 0.0144090997055 14 4 0.0144052999094 14 5 0.0736521035433 14 6 0.0736626014113 14 7 -0.0447291992605 14 8 -0.0447276011109 14 9 -0.00567532004789 15 0 0.238388001919 15 1 -0.107253998518 15 2 -0.107283003628 15 3 -0.0303188990802 15 4 -0.0303287003189 15 5 -0.00463003013283 15 6 -0.00462045986205 15 7 -0.0029286199715 15 8 -0.00293657998554 15 9 0.0402574017644)" "\n"
R"(A3 3.1.2 16 6 80 0 0 0.460031986237 0 1 0.46003600955 0 2 0.0992743000388 0 4 0.111755996943 0 5 0.111744001508 1 0 0.512338995934 1 1 -0.512329995632 1 2 1.13557998702e-05 1 4 0.0957109034061 1 5 -0.0957019999623 2 0 -0.173208996654 2 1 -0.173209995031 2 2 -0.129118993878 2 4 0.217736005783 2 5 0.217737004161 3 0 -0.0867903977633 3 1 -0.0867787972093 3 2 0.186391994357 3 4 0.141203001142 3 5 0.141173005104 4 0 0.211061000824 4 1 -0.211065992713 4 2 3.13702985295e-05 4 4 0.121780999005 4 5 -0.121756002307 5 0 -0.124035999179 5 1 0.124058000743 5 2 -9.13908024813e-06 5 4 0.138299003243 5 5 -0.13830499351 6 0 0.0603143982589 6 1 0.0603027008474 6 2 0.0349665991962 6 4 0.124173000455 6 5 0.12420900166 7 0 -0.147264003754 7 1 -0.147266998887 7 2 -0.116005003452 7 4 0.213644996285 7 5 0.213649004698 8 0 -0.0954411998391 8 1 -0.0954219028354 8 2 0.207617998123 8 4 0.0363516993821 8 5 0.0363181009889 9 0 0.00962670985609 9 1 -0.00964091997594 9 2 3.94595990656e-05 9 4 0.0678595006466 9 5 -0.067822098732 10 0 -0.14755000174 10 1 0.147540003061 10 2 -2.87941002171e-05 10 4 0.173252001405 10 5 -0.173245996237 11 0 -0.0217084996402 11 1 0.0216968990862 11 2 4.17937008024e-06 11 4 0.0648593977094 11 5 -0.0648820996284 12 0 -0.0175721999258 12 1 -0.0175886005163 12 2 -0.065788500011 12 4 -0.0112965004519 12 5 -0.0112875001505 13 0 -0.034595400095 13 1 -0.0346052981913 13 2 -0.0179099999368 13 4 0.123631998897 13 5 0.123677000403 14 0 0.00597454002127 14 1 0.00597492000088 14 2 -0.0836478993297 14 4 0.0436275005341 14 5 0.0436323992908 15 0 -0.174052998424 15 1 -0.174016997218 15 2 0.221708998084 15 4 -0.00588276004419 15 5 -0.00593294017017)" "\n"
R"(A3 4+5+0 16 10 144 0 0 0.150756001472 0 1 0.150763005018 0 2 0.10002899915 0 4 0.323639988899 0 5 0.323630005121 0 6 0.114579997957 0 7 0.114566996694 0 8 0.154651999474 0 9 0.154658004642 1 0 0.216688007116 1 1 -0.216692000628 1 2 1.14421000035e-05 1 4 0.324880003929 1 5 -0.32485601306 1 6 0.101533003151 1 7 -0.101522997022 1 8 0.140532001853 1 9 -0.140536993742 2 0 -0.178828001022 2 1 -0.178837999701 2 2 -0.130100995302 2 4 -0.256305992603 2 5 -0.256296008825 2 6 0.221499994397 2 7 0.221500992775 2 8 0.305855989456 2 9 0.305858999491 3 0 0.198240995407 3 1 0.198265001178 3 2 0.18780900538 3 4 -0.362578988075 3 5 -0.362589985132 3 6 0.143712997437 3 7 0.143683001399 3 8 -0.0914203003049 3 9 -0.0914305970073 4 0 0.281360000372 4 1 -0.281369000673 4 2 3.16086989187e-05 4 4 -0.0876538008451 4 5 0.0876516029239 4 6 0.126009002328 4 7 -0.125982999802 4 8 -0.0235092993826 4 9 0.0235194005072 5 0 -0.124295003712 5 1 0.124315999448 5 2 -9.20853017305e-06 5 4 -0.170627996325 5 5 0.170628994703 5 6 0.144519999623 5 7 -0.144522994757 5 8 0.206762000918 5 9 -0.206760004163 6 0 -0.00655998988077 6 1 -0.00656006019562 6 2 0.0352323018014 6 4 -0.122195996344 6 5 -0.122198998928 6 6 0.122239999473 6 7 0.122276000679 6 8 0.180362999439 6 9 0.18034799397 7 0 -0.149976998568 7 1 -0.149986997247 7 2 -0.116885997355 7 4 0.0846185982227 7 5 0.0846322029829 7 6 0.216741994023 7 7 0.216745004058 7 8 -0.147834002972 7 9 -0.147838994861 8 0 -0.0434264987707 8 1 -0.0433922000229 8 2 0.209196001291 8 4 -0.0158569999039 8 5 -0.0158558990806 8 6 0.0312085002661 8 7 0.031175499782 8 8 -0.0657960027456 8 9 -0.0658238008618 9 0 0.12206300348 9 1 -0.122083999217 9 2 3.97594994865e-05 9 4 -0.120091997087 9 5 0.120090000331 9 6 0.0641138032079 9 7 -0.0640762001276 9 8 -0.0616566985846 9 9 0.0616762004793 10 0 -0.150884002447 10 1 0.150885000825 10 2 -2.90129992209e-05 10 4 0.0249064993113 10 5 -0.0249258000404 10 6 0.178204998374 10 7 -0.17819699645 10 8 -0.0396751016378 10 9 0.0396789014339 11 0 -0.0591933988035 11 1 0.0591748990119 11 2 4.21113008997e-06 11 4 -0.0769746974111 11 5 0.0769682005048 11 6 0.0630137994885 11 7 -0.0630360022187 11 8 0.104146003723 11 9 -0.104135997593 12 0 -0.0234898999333 12 1 -0.023502599448 12 2 -0.0662885010242 12 4 -0.0542917996645 12 5 -0.0542802996933 12 6 -0.0167658999562 12 7 -0.0167555008084 12 8 -0.02224319987 12 9 -0.0222584009171 13 0 -0.00723463995382 13 1 -0.00724101020023 13 2 -0.0180460996926 13 4 0.0502502992749 13 5 0.0502315014601 13 6 0.123938001692 13 7 0.123981997371 13 8 -0.102998003364 13 9 -0.102984003723 14 0 0.00672193989158 14 1 0.00672957021743 14 2 -0.0842835977674 14 4 0.0956173017621 14 5 0.0956268981099 14 6 0.0380694009364 14 7 0.0380757004023 14 8 -0.0835279002786 14 9 -0.0835499018431 15 0 -0.160457998514 15 1 -0.160432994366 15 2 0.223394006491 15 4 -0.0356422998011 15 5 -0.035646699369 15 6 -0.0104491999373 15 7 -0.0104983998463 15 8 0.0150958998129 15 9 0.0151327000931)" "\n"
R"(A3 4+5+1 16 11 160 0 0 0.0804316028953 0 1 0.0804376974702 0 2 0.033422999084 0 4 0.341558009386 0 5 0.341549009085 0 6 0.114606998861 0 7 0.114593997598 0 8 0.154689997435 0 9 0.154696002603 0 10 0.143611997366 1 0 0.164184004068 1 1 -0.164186000824 1 2 1.61828993441e-05 1 4 0.351938992739 1 5 -0.351927012205 1 6 0.101557999849 1 7 -0.10154800117 1 8 0.140566006303 1 9 -0.140570998192 1 10 -6.32173987469e-06 2 0 -0.0176293998957 2 1 -0.0176419001073 2 2 0.00937390979379 2 4 -0.290715992451 2 5 -0.290713012218 2 6 0.221552997828 2 7 0.221553996205 2 8 0.305929988623 2 9 0.305932998657 2 10 -0.285515993834 3 0 0.134970992804 3 1 0.134991005063 3 2 0.0954584032297 3 4 -0.339278995991 3 5 -0.339291006327 3 6 0.143748000264 3 7 0.143717005849 3 8 -0.0914423018694 3 9 -0.0914525985718 3 10 0.200635999441 4 0 0.22199100256 4 1 -0.222009003162 4 2 4.16408001911e-05 4 4 -0.0493086986244 4 5 0.0493003986776 4 6 0.126039996743 4 7 -0.126012995839 4 8 -0.0235149990767 4 9 0.0235249996185 4 10 4.97556993651e-06 5 0 -0.0283780004829 5 1 0.0283997002989 5 2 -2.45930004894e-06 5 4 -0.214551001787 5 5 0.21458299458 5 6 0.144555002451 5 7 -0.144557997584 5 8 0.206811994314 5 9 -0.206809997559 5 10 7.14081988917e-06 6 0 -0.154130995274 6 1 -0.154127001762 6 2 -0.070980399847 6 4 -0.104065999389 6 5 -0.104052998126 6 6 0.122268997133 6 7 0.122305996716 6 8 0.18040600419 6 9 0.180391997099 6 10 0.171718999743 7 0 -0.0291659999639 7 1 -0.0291795004159 7 2 0.0244270991534 7 4 0.0491168014705 7 5 0.0491200983524 7 6 0.216793999076 7 7 0.216796994209 7 8 -0.147869005799 7 9 -0.147874996066 7 10 -0.30795699358 8 0 -0.0393569990993 8 1 -0.039333999157 8 2 0.125334993005 8 4 -0.0132553996518 8 5 -0.0132609996945 8 6 0.0312159992754 8 7 0.031183000654 8 8 -0.0658119022846 8 9 -0.0658396035433 8 10 0.104382999241 9 0 0.0930067971349 9 1 -0.0930254012346 9 2 6.57182026771e-05 9 4 -0.0947887971997 9 5 0.0947943031788 9 6 0.064129203558 9 7 -0.0640916004777 9 8 -0.0616714991629 9 9 0.0616911016405 9 10 8.04644969321e-06 10 0 -0.0404155999422 10 1 0.0404454991221 10 2 -7.34799004931e-06 10 4 -0.0379537008703 10 5 0.0379666984081 10 6 0.178248003125 10 7 -0.178240001202 10 8 -0.0396846011281 10 9 0.0396884009242 10 10 -1.20867998703e-05 11 0 -0.144645005465 11 1 0.144620001316 11 2 -2.07747998502e-05 11 4 -0.0469442009926 11 5 0.0468938015401 11 6 0.063028998673 11 7 -0.0630512014031 11 8 0.104171000421 11 9 -0.104161001742 11 10 2.20218998948e-06 12 0 0.0400210991502 12 1 0.0400220006704 12 2 -0.0261867009103 12 4 -0.0503329001367 12 5 -0.0503321997821 12 6 -0.016769900918 12 7 -0.0167596004903 12 8 -0.0222484990954 12 9 -0.0222638007253 12 10 0.0159143991768 13 0 -0.125600993633 13 1 -0.125600993633 13 2 -0.103437997401 13 4 0.0695666000247 13 5 0.0695751979947 13 6 0.12396799773 13 7 0.124012000859 13 8 -0.103023000062 13 9 -0.103009000421 13 10 0.185790002346 14 0 -0.00386632001027 14 1 -0.0038514600601 14 2 0.0319393984973 14 4 0.0920953005552 14 5 0.0921012014151 14 6 0.0380785986781 14 7 0.038084898144 14 8 -0.083548001945 14 9 -0.0835700035095 14 10 -0.119381003082 15 0 -0.140126004815 15 1 -0.140121996403 15 2 0.138924002647 15 4 -0.0502539016306 15 5 -0.0502658002079 15 6 -0.0104516996071 15 7 -0.0105009004474 15 8 0.015099500306 15 9 0.0151364002377 15 10 0.0515776015818)" "\n"
R"(A3 4+7+0 16 12 176 0 0 0.124843001366 0 1 0.124851003289 0 2 0.114402003586 0 4 0.158755004406 0 5 0.158757001162 0 6 0.18620300293 0 7 0.186189994216 0 8 0.14471000433 0 9 0.144701004028 0 10 0.14495100081 0 11 0.144953995943 1 0 0.141062006354 1 1 -0.141069993377 1 2 4.9873901844e-06 1 4 0.295107007027 1 5 -0.295116007328 1 6 0.150115996599 1 7 -0.150097995996 1 8 0.141473993659 1 9 -0.141445994377 1 10 0.135387003422 1 11 -0.135400995612 2 0 -0.180747002363 2 1 -0.180773004889 2 2 -0.133727997541 2 4 -0.17679899931 2 5 -0.176786005497 2 6 -0.214964002371 2 7 -0.214959993958 2 8 0.278957009315 2 9 0.278957009315 2 10 0.279612988234 2 11 0.279610991478 3 0 0.165913000703 3 1 0.165913999081 3 2 0.200536996126 3 4 0.0268778000027 3 5 0.0268565993756 3 6 -0.303324997425 3 7 -0.303312003613 3 8 0.141751006246 3 9 0.141751006246 3 10 -0.142096996307 3 11 -0.142094999552 4 0 0.236800000072 4 1 -0.236805006862 4 2 7.47282001612e-06 4 4 0.0461415983737 4 5 -0.0461074002087 4 6 -0.236973002553 4 7 0.236956000328 4 8 0.130601003766 4 9 -0.130566999316 4 10 -0.115377001464 4 11 0.115370996296 5 0 -0.107244998217 5 1 0.107248999178 5 2 -2.10410998989e-05 5 4 -0.143594995141 5 5 0.143577992916 5 6 -0.106371998787 5 7 0.106380999088 5 8 0.20165400207 5 9 -0.201633006334 5 10 0.196670994163 5 11 -0.196674004197 6 0 0.0370755009353 6 1 0.0371138006449 6 2 0.0312322992831 6 4 -0.00756536982954 6 5 -0.00759073998779 6 6 -0.0225753001869 6 7 -0.0225725993514 6 8 0.150390997529 6 9 0.150411993265 6 10 0.150619000196 6 11 0.150606006384 7 0 -0.132042005658 7 1 -0.132065996528 7 2 -0.0731588974595 7 4 -0.0250863004476 7 5 -0.0250819008797 7 6 0.169771000743 7 7 0.169771999121 7 8 0.201774999499 7 9 0.201804995537 7 10 -0.203198999166 7 11 -0.2032019943 8 0 0.0334320999682 8 1 0.0334170982242 8 2 0.233909994364 8 4 -0.305162012577 8 5 -0.305166989565 8 6 0.172867998481 8 7 0.172893002629 8 8 0.000506050011609 8 9 0.00049660197692 8 10 0.000298436003504 8 11 0.000271549011813 9 0 0.183466002345 9 1 -0.183456003666 9 2 4.9852101256e-06 9 4 -0.229774996638 9 5 0.229763999581 9 6 0.150334998965 9 7 -0.150359004736 9 8 0.0291924998164 9 9 -0.0291384998709 9 10 0.00589415989816 9 11 -0.00586437014863 10 0 -0.163044005632 10 1 0.163049995899 10 2 -3.87489017157e-05 10 4 -0.0329644009471 10 5 0.0329817011952 10 6 0.142694994807 10 7 -0.14269900322 10 8 0.171070992947 10 9 -0.171055004001 10 10 -0.157975003123 10 11 0.157959997654 11 0 -0.0332091003656 11 1 0.0331921987236 11 2 2.56235998677e-05 11 4 -0.0881170034409 11 5 0.0881564021111 11 6 -0.0362253002822 11 7 0.0361975990236 11 8 0.0900017023087 11 9 -0.0900155007839 11 10 0.0945684015751 11 11 -0.0945438966155 12 0 -0.0100199999288 12 1 -0.0100594004616 12 2 -0.0847691968083 12 4 -0.0443186014891 12 5 -0.0443327017128 12 6 -0.00606156978756 12 7 -0.00602462003008 12 8 -0.0321156010032 12 9 -0.0321118012071 12 10 -0.0334969013929 12 11 -0.0335051007569 13 0 -0.0300654992461 13 1 -0.0300390999764 13 2 -0.0608020015061 13 4 0.00301020010374 13 5 0.00297545990907 13 6 0.083991996944 13 7 0.0839966014028 13 8 0.0896532014012 13 9 0.0896938964725 13 10 -0.0910208970308 13 11 -0.0910397022963 14 0 -0.023073900491 14 1 -0.0231094006449 14 2 -0.0669334977865 14 4 0.129563003778 14 5 0.129568994045 14 6 -0.0540499985218 14 7 -0.0540363006294 14 8 0.000267124007223 14 9 0.000277979008388 14 10 0.00133571994957 14 11 0.00132770999335 15 0 -0.107603996992 15 1 -0.10763400048 15 2 0.239167004824 15 4 -0.0445753000677 15 5 -0.044541798532 15 6 -0.00287551991642 15 7 -0.00291104009375 15 8 -0.0281262993813 15 9 -0.0281581003219 15 10 0.028486000374 15 11 0.0285002999008)" "\n"
R"(A3 4+9+0 16 14 208 0 0 0.108791001141 0 1 0.108806997538 0 2 0.0833690986037 0 4 0.158092007041 0 5 0.158093005419 0 6 0.186112999916 0 7 0.186100006104 0 8 0.147400006652 0 9 0.147388994694 0 10 0.147597000003 0 11 0.147599995136 0 12 0.0641388967633 0 13 0.0641126036644 1 0 0.133422002196 1 1 -0.133444994688 1 2 -7.44041017242e-06 1 4 0.301144987345 1 5 -0.301151990891 1 6 0.153231993318 1 7 -0.153210997581 1 8 0.144108995795 1 9 -0.144079998136 1 10 0.137858003378 1 11 -0.137872993946 1 12 0.0217275004834 1 13 -0.0216888003051 2 0 -0.160781994462 2 1 -0.160784006119 2 2 -0.0987233966589 2 4 -0.170780003071 2 5 -0.170766994357 2 6 -0.209839999676 2 7 -0.209834992886 2 8 0.284076988697 2 9 0.284074991941 2 10 0.28471699357 2 11 0.284714996815 2 12 -0.11679200083 2 13 -0.116801999509 3 0 0.132440000772 3 1 0.132464006543 3 2 0.131383001804 3 4 0.0273131001741 3 5 0.0272914003581 3 6 -0.309565007687 3 7 -0.309552013874 3 8 0.144464999437 3 9 0.144458994269 3 10 -0.144691005349 3 11 -0.144688993692 3 12 0.0760288015008 3 13 0.0759627968073 4 0 0.215419992805 4 1 -0.21545599401 4 2 -1.29358004415e-05 4 4 0.0470567010343 4 5 -0.0470191985369 4 6 -0.241685003042 4 7 0.241670995951 4 8 0.133109003305 4 9 -0.1330730021 4 10 -0.117482997477 4 11 0.11747699976 4 12 0.0533878989518 4 13 -0.0533122010529 5 0 -0.103417001665 5 1 0.103402003646 5 2 -1.96950004465e-05 5 4 -0.147618994117 5 5 0.147597000003 5 6 -0.109122999012 5 7 0.109127998352 5 8 0.205366000533 5 9 -0.20534299314 5 10 0.200261995196 5 11 -0.200264006853 5 12 -0.013633299619 5 13 0.0136211002246 6 0 0.0398438982666 6 1 0.0398527011275 6 2 0.0471736006439 6 4 -0.0190849993378 6 5 -0.0191108006984 6 6 -0.0341120995581 6 7 -0.0341091006994 6 8 0.153033003211 6 9 0.153056994081 6 10 0.153368994594 6 11 0.153356000781 6 12 0.0785287991166 6 13 0.0785622000694 7 0 -0.106671996415 7 1 -0.106656998396 7 2 -0.0184278991073 7 4 -0.0254126992077 7 5 -0.0254078991711 7 6 0.174448996782 7 7 0.174450993538 7 8 0.205525994301 7 9 0.205551996827 7 10 -0.206908002496 7 11 -0.206911996007 7 12 -0.0629549995065 7 13 -0.0629680976272 8 0 -0.00688325986266 8 1 -0.00688161980361 8 2 0.158518001437 8 4 -0.310786008835 8 5 -0.310790985823 8 6 0.176568001509 8 7 0.176593005657 8 8 0.000638113997411 8 9 0.000620552978944 8 10 0.000303884007735 8 11 0.000276506005321 8 12 0.0791274011135 8 13 0.0790741965175 9 0 0.14521600306 9 1 -0.145244002342 9 2 -1.19849000839e-05 9 4 -0.234225004911 9 5 0.23421600461 9 6 0.15320199728 9 7 -0.153224006295 9 8 0.0298928003758 9 9 -0.0298353005201 9 10 0.00600175978616 9 11 -0.00597142009065 9 12 0.0845495983958 9 13 -0.0844618007541 10 0 -0.151810005307 10 1 0.151766002178 10 2 -4.41055999545e-05 10 4 -0.0337407998741 10 5 0.0337507016957 10 6 0.146185994148 10 7 -0.146198004484 10 8 0.174272999167 10 9 -0.174253001809 10 10 -0.160858005285 10 11 0.160843998194 10 12 -0.0314412005246 10 13 0.0314414016902 11 0 -0.0295538995415 11 1 0.0295420996845 11 2 5.54153984922e-06 11 4 -0.0880186036229 11 5 0.0880671963096 11 6 -0.0358968004584 11 7 0.035876698792 11 8 0.0915891975164 11 9 -0.0916016027331 11 10 0.0962947010994 11 11 -0.096269801259 11 12 -0.00701468018815 11 13 0.00706426985562 12 0 -0.0139827998355 12 1 -0.0140466000885 12 2 -0.103597998619 12 4 -0.0354299992323 12 5 -0.0354443006217 12 6 0.00330876000226 12 7 0.00334630999714 12 8 -0.032787900418 12 9 -0.0327784009278 12 10 -0.0341084003448 12 11 -0.0341167002916 12 12 -0.0558275990188 12 13 -0.0558050982654 13 0 -0.0212210007012 13 1 -0.0212140008807 13 2 -0.0443129017949 13 4 0.0028813900426 13 5 0.00284554995596 13 6 0.0834511965513 13 7 0.083455696702 13 8 0.0911493971944 13 9 0.0911943987012 13 10 -0.0926823988557 13 11 -0.0927015990019 13 12 -0.00983581971377 13 13 -0.00984208006412 14 0 0.00743032991886 14 1 0.00743057997897 14 2 -0.00739562977105 14 4 0.132106006145 14 5 0.132111996412 14 6 -0.0562621988356 14 7 -0.056248601526 14 8 0.000340483995387 14 9 0.000345242006006 14 10 0.00136009999551 14 11 0.00135193997994 14 12 -0.0588008984923 14 13 -0.0588266998529 15 0 -0.146807000041 15 1 -0.146836996078 15 2 0.175483003259 15 4 -0.0456041991711 15 5 -0.0455701984465 15 6 -0.00297493999824 15 7 -0.00301128998399 15 8 -0.0285702999681 15 9 -0.028613999486 15 10 0.0290060006082 15 11 0.0290206000209 15 12 0.0725959986448 15 13 0.0725710019469)" "\n"
R"(A3 7.1.2 16 10 144 0 0 0.124843001366 0 1 0.124851003289 0 2 0.114402003586 0 4 0.158755004406 0 5 0.158757001162 0 6 0.18620300293 0 7 0.186189994216 0 8 0.247206002474 0 9 0.247198998928 1 0 0.141062006354 1 1 -0.141069993377 1 2 4.9873901844e-06 1 4 0.295107007027 1 5 -0.295116007328 1 6 0.150115996599 1 7 -0.150097995996 1 8 0.237206995487 1 9 -0.237189993262 2 0 -0.180747002363 2 1 -0.180773004889 2 2 -0.133727997541 2 4 -0.17679899931 2 5 -0.176786005497 2 6 -0.214964002371 2 7 -0.214959993958 2 8 0.476673007011 2 9 0.476671993732 3 0 0.165913000703 3 1 0.165913999081 3 2 0.200536996126 3 4 0.0268778000027 3 5 0.0268565993756 3 6 -0.303324997425 3 7 -0.303312003613 3 8 0.0412731990218 3 9 0.0412742011249 4 0 0.236800000072 4 1 -0.236805006862 4 2 7.47282001612e-06 4 4 0.0461415983737 4 5 -0.0461074002087 4 6 -0.236973002553 4 7 0.236956000328 4 8 0.0490172989666 4 9 -0.0489877015352 5 0 -0.107244998217 5 1 0.107248999178 5 2 -2.10410998989e-05 5 4 -0.143594995141 5 5 0.143577992916 5 6 -0.106371998787 5 7 0.106380999088 5 8 0.340721011162 5 9 -0.340703010559 6 0 0.0370755009353 6 1 0.0371138006449 6 2 0.0312322992831 6 4 -0.00756536982954 6 5 -0.00759073998779 6 6 -0.0225753001869 6 7 -0.0225725993514 6 8 0.256895005703 6 9 0.256906986237 7 0 -0.132042005658 7 1 -0.132065996528 7 2 -0.0731588974595 7 4 -0.0250863004476 7 5 -0.0250819008797 7 6 0.169771000743 7 7 0.169771999121 7 8 0.0580914989114 7 9 0.0581197999418 8 0 0.0334320999682 8 1 0.0334170982242 8 2 0.233909994364 8 4 -0.305162012577 8 5 -0.305166989565 8 6 0.172867998481 8 7 0.172893002629 8 8 0.000717076007277 8 9 0.000688616011757 9 0 0.183466002345 9 1 -0.183456003666 9 2 4.9852101256e-06 9 4 -0.229774996638 9 5 0.229763999581 9 6 0.150334998965 9 7 -0.150359004736 9 8 0.033360298723 9 9 -0.0332852005959 10 0 -0.163044005632 10 1 0.163049995899 10 2 -3.87489017157e-05 10 4 -0.0329644009471 10 5 0.0329817011952 10 6 0.142694994807 10 7 -0.14269900322 10 8 0.0593658015132 10 9 -0.0593606010079 11 0 -0.0332091003656 11 1 0.0331921987236 11 2 2.56235998677e-05 11 4 -0.0881170034409 11 5 0.0881564021111 11 6 -0.0362253002822 11 7 0.0361975990236 11 8 0.156872004271 11 9 -0.156867995858 12 0 -0.0100199999288 12 1 -0.0100594004616 12 2 -0.0847691968083 12 4 -0.0443186014891 12 5 -0.0443327017128 12 6 -0.00606156978756 12 7 -0.00602462003008 12 8 -0.055801499635 12 9 -0.0558035001159 13 0 -0.0300654992461 13 1 -0.0300390999764 13 2 -0.0608020015061 13 4 0.00301020010374 13 5 0.00297545990907 13 6 0.083991996944 13 7 0.0839966014028 13 8 0.0252916999161 13 9 0.0253190994263 14 0 -0.023073900491 14 1 -0.0231094006449 14 2 -0.0669334977865 14 4 0.129563003778 14 5 0.129568994045 14 6 -0.0540499985218 14 7 -0.0540363006294 14 8 0.00121162005235 14 9 0.00121680996381 15 0 -0.107603996992 15 1 -0.10763400048 15 2 0.239167004824 15 4 -0.0445753000677 15 5 -0.044541798532 15 6 -0.00287551991642 15 7 -0.00291104009375 15 8 -0.00798369012773 15 9 -0.0080053601414)" "\n"
R"(A3 7.1.5.4 16 17 256 0 0 0.0356439985335 0 1 0.0356504991651 0 2 0.0627275034785 0 4 0.0809672996402 0 5 0.0809786021709 0 6 0.083716198802 0 7 0.0836974978447 0 8 0.112542003393 0 9 0.112531997263 0 10 0.112788997591 0 11 0.112792000175 0 12 0.102387003601 0 13 0.14747799933 0 14 0.147489994764 0 15 0.147746995091 0 16 0.147743999958 1 0 0.0676283016801 1 1 -0.0676359981298 1 2 -1.47145999563e-06 1 4 0.217107996345 1 5 -0.217133998871 1 6 0.0792583972216 1 7 -0.0792156979442 1 8 0.151216000319 1 9 -0.151178002357 1 10 0.145012006164 1 11 -0.14501799643 1 12 -7.52301002649e-06 1 13 -0.144150003791 1 14 0.14417399466 1 15 0.138004004955 1 16 -0.138005003333 2 0 -3.74616001864e-06 2 1 -3.49450010617e-06 2 2 1.06890001916e-05 2 4 -3.32006993631e-06 2 5 -2.46451008934e-06 2 6 4.76870013699e-07 2 7 -9.88207034425e-07 2 8 0.191787004471 2 9 0.191784992814 2 10 0.192457005382 2 11 0.192454993725 2 12 0.267439007759 2 13 -0.28432700038 2 14 -0.284318000078 2 15 -0.285003006458 2 16 -0.284983992577 3 0 0.0759131014347 3 1 0.0759280025959 3 2 0.172598004341 3 4 0.0112528000027 3 5 0.0112407999113 3 6 -0.202898994088 3 7 -0.202877998352 3 8 0.151495993137 3 9 0.151497006416 3 10 -0.151840999722 3 11 -0.151840999722 3 12 -1.14167996799e-05 3 13 0.144459992647 3 14 0.144481003284 3 15 -0.144832000136 3 16 -0.144832998514 4 0 0.128837004304 4 1 -0.128845006227 4 2 -7.64121011798e-07 4 4 0.0241279006004 4 5 -0.0240989997983 4 6 -0.148219004273 4 7 0.148181006312 4 8 0.137004002929 4 9 -0.136972993612 4 10 -0.121491000056 4 11 0.121480002999 4 12 5.55160022486e-06 4 13 -0.13308699429 4 14 0.133094996214 4 15 -0.117585003376 4 16 0.117591001093 5 0 -1.60051004059e-05 5 1 2.5765900773e-06 5 2 -8.39496010485e-07 5 4 -7.26615007807e-06 5 5 4.66220990347e-06 5 6 2.68033005568e-07 5 7 -5.92828018853e-06 5 8 0.221471995115 5 9 -0.221431002021 5 10 0.216394007206 5 11 -0.216378003359 5 12 -1.60965992109e-05 5 13 0.205503001809 5 14 -0.20551200211 5 15 -0.200460001826 5 16 0.200449004769 6 0 -0.0812589004636 6 1 -0.0812778994441 6 2 -0.118019998074 6 4 -0.15947599709 6 5 -0.159507006407 6 6 -0.171935006976 6 7 -0.171894997358 6 8 0.0341774001718 6 9 0.0341975986958 6 10 0.0344104990363 6 11 0.0343968011439 6 12 0.333050996065 6 13 0.15334199369 6 14 0.153279006481 6 15 0.153519004583 6 16 0.153485998511 7 0 1.44059004015e-06 7 1 -8.89476996235e-06 7 2 2.01356997422e-05 7 4 1.57096001203e-05 7 5 -3.59008004125e-06 7 6 2.80285007648e-07 7 7 5.84039980822e-06 7 8 0.221589997411 7 9 0.221623003483 7 10 -0.223027005792 7 11 -0.223033994436 7 12 -2.00924005185e-05 7 13 -0.205667003989 7 14 -0.205663993955 7 15 0.207114994526 7 16 0.20711299777 8 0 0.0154417995363 8 1 0.0154536999762 8 2 0.210017994046 8 4 -0.239097997546 8 5 -0.239107996225 8 6 0.15391099453 8 7 0.153966993093 8 8 0.000514451006893 8 9 0.000505171017721 8 10 0.000307322014123 8 11 0.00028077600291 8 12 -4.47699994766e-06 8 13 0.000514747982379 8 14 0.000526172982063 8 15 0.000286082009552 8 16 0.00026706099743 9 0 0.112277001143 9 1 -0.112277001143 9 2 7.01429007677e-06 9 4 -0.191510006785 9 5 0.191488996148 9 6 0.124403998256 9 7 -0.124453999102 9 8 0.0301802996546 9 9 -0.030112799257 9 10 0.00643615983427 9 11 -0.00639485986903 9 12 -1.11402996481e-05 9 13 -0.0297302007675 9 14 0.0297338999808 9 15 0.00598995992914 9 16 -0.00595346000046 10 0 -1.79540002136e-05 10 1 6.65888001095e-06 10 2 -2.59045009443e-06 10 4 3.23245985783e-05 10 5 7.21631022316e-06 10 6 3.57878002433e-06 10 7 3.317439905e-07 10 8 0.183547005057 10 9 -0.183538004756 10 10 -0.170206993818 10 11 0.170182004571 10 12 1.09973998406e-05 10 13 0.174352005124 10 14 -0.174342006445 10 15 0.160997003317 10 16 -0.161002993584 11 0 -0.0823099985719 11 1 0.0823241993785 11 2 -9.36293020004e-07 11 4 -0.204646006227 11 5 0.204688996077 11 6 -0.0903154984117 11 7 0.0902704000473 11 8 0.113123998046 11 9 -0.113113999367 11 10 0.117778003216 11 11 -0.117730997503 11 12 -1.88194007933e-05 11 13 -0.091768398881 11 14 0.0917387008667 11 15 0.0963687971234 11 16 -0.0963580012321 12 0 7.55621022108e-06 12 1 9.50720004766e-06 12 2 -2.53932994383e-05 12 4 6.63718992655e-06 12 5 1.93830010176e-06 12 6 -3.13135001306e-06 12 7 -2.9021600767e-06 12 8 -0.143173992634 12 9 -0.143169000745 12 10 -0.144584998488 12 11 -0.14459399879 12 12 0.28746598959 12 13 0.0326954983175 12 14 0.0327476002276 12 15 0.0341406017542 12 16 0.034163698554 13 0 -0.0928988009691 13 1 -0.0929270014167 13 2 -0.150162994862 13 4 -0.0136160999537 13 5 -0.0136160003021 13 6 0.202025994658 13 7 0.202000007033 13 8 0.112759999931 13 9 0.112801998854 13 10 -0.114143997431 13 11 -0.114165000618 13 12 -1.40909996844e-05 13 13 0.091419801116 13 14 0.0913904979825 13 15 -0.0927888974547 13 16 -0.0927793979645 14 0 3.34803007718e-05 14 1 -1.202059957e-05 14 2 1.49034997321e-06 14 4 6.24573021923e-06 14 5 2.93655989481e-06 14 6 -3.95097004002e-06 14 7 -1.56655005412e-05 14 8 0.000269932992524 14 9 0.000281087995972 14 10 0.00136764999479 14 11 0.00136055005714 14 12 -8.42221015773e-06 14 13 -0.000284415000351 14 14 -0.000275411002804 14 15 -0.00134766998235 14 16 -0.00135339004919 15 0 -0.0761365965009 15 1 -0.0761160030961 15 2 0.206373006105 15 4 -0.0263011995703 15 5 -0.0262575000525 15 6 -0.0443608015776 15 7 -0.0444522984326 15 8 -0.0290892999619 15 9 -0.029120599851 15 10 0.0294583998621 15 11 0.0294720008969 15 12 -7.25602012608e-06 15 13 -0.0287136994302 15 14 -0.0286638997495 15 15 0.0290222000331 15 16 0.0290648993105)" "\n"
R"(A3 9+10+3 16 24 352 0 0 0.040457598865 0 1 0.0404605008662 0 2 0.0242593996227 0 4 0.144254997373 0 5 0.144253000617 0 6 0.0410557985306 0 7 0.0410575009882 0 8 0.144253000617 0 10 0.131757006049 0 11 0.13176099956 0 12 0.054613199085 0 13 0.0545989014208 0 14 0.0611276999116 0 15 0.134184002876 0 16 0.0595571994781 0 17 0.0595465004444 0 18 0.0603369995952 0 19 0.0603380985558 0 20 0.0595501996577 0 21 0.0988956019282 0 22 0.0923739001155 0 23 0.0923646986485 1 0 0.102277003229 1 1 -0.102279998362 1 2 1.27760004034e-05 1 4 0.182288005948 1 5 -0.182292997837 1 6 0.053899500519 1 7 -0.0539022982121 1 8 -9.5676696219e-06 1 10 0.224848002195 1 11 -0.224866002798 1 12 0.0858331993222 1 13 -0.0858269035816 1 14 1.18565003504e-05 1 15 1.53723995027e-05 1 16 0.0943742021918 1 17 -0.0943657979369 1 18 0.135980993509 1 19 -0.135982006788 1 20 7.70829956309e-06 1 21 -5.31911018697e-06 1 22 0.081570096314 1 23 -0.0815529972315 2 0 0.000316304998705 2 1 0.000304769986542 2 2 -2.22512007895e-05 2 4 -0.184615001082 2 5 -0.184600993991 2 6 2.72196007245e-06 2 7 1.46102001963e-05 2 8 -0.184594005346 2 10 -0.188384994864 2 11 -0.188375994563 2 12 0.0930017009377 2 13 0.092976398766 2 14 0.0981052964926 2 15 0.340119987726 2 16 0.0971937999129 2 17 0.0971667990088 2 18 0.0976431965828 2 19 0.097642801702 2 20 0.0971764996648 2 21 -0.194619998336 2 22 -0.189484998584 2 23 -0.189498007298 3 0 0.0535705983639 3 1 0.0535815991461 3 2 0.0706674978137 3 4 -0.182290002704 3 5 -0.182293996215 3 6 0.104005999863 3 7 0.104005999863 3 8 -0.257802009583 3 10 -0.0143504999578 3 11 -0.01434910018 3 12 0.0858428031206 3 13 0.0858165025711 3 14 0.13850300014 3 15 -6.25214988759e-06 3 16 -0.0943859964609 3 17 -0.0943804010749 3 18 -7.0309099101e-05 3 19 -7.46994992369e-05 3 20 -0.133467003703 3 21 0.132480993867 3 22 0.0815892964602 3 23 0.0815545991063 4 0 0.124839998782 4 1 -0.124857001007 4 2 3.31191004079e-05 4 4 -0.285052001476 4 5 0.285055994987 4 6 0.125759005547 4 7 -0.125759005547 4 8 8.64128014655e-06 4 10 -0.035583101213 4 11 0.0355685986578 4 12 0.125634998083 4 13 -0.125619992614 4 14 2.01552993531e-05 4 15 5.69422991248e-06 4 16 -0.134660005569 4 17 0.134660005569 4 18 0.000300663989037 4 19 -0.000288862996968 4 20 -1.38944997161e-05 4 21 -6.75532010064e-06 4 22 0.120915003121 4 23 -0.120867997408 5 0 0.000869586016051 5 1 -0.000847445975523 5 2 -7.29287989998e-07 5 4 -0.10970299691 5 5 0.10970299691 5 6 -2.75654997495e-06 5 7 -1.25446003949e-05 5 8 3.48959997609e-06 5 10 -0.164930999279 5 11 0.164923995733 5 12 0.128537997603 5 13 -0.128518000245 5 14 1.94822005142e-05 5 15 2.74676003755e-05 5 16 0.135425999761 5 17 -0.135395005345 5 18 0.19299800694 5 19 -0.192986994982 5 20 1.32396999106e-05 5 21 7.40658015275e-06 5 22 -0.119351997972 5 23 0.119359001517 6 0 -0.0849374011159 6 1 -0.0849511027336 6 2 -0.0554887987673 6 4 0.01752069965 6 5 0.0175049994141 6 6 -0.0862838998437 6 7 -0.0862758010626 6 8 0.0175097007304 6 10 0.0435662008822 6 11 0.0435448996723 6 12 0.014732000418 6 13 0.0147182997316 6 14 0.0023716900032 6 15 0.395112007856 6 16 0.00575711019337 6 17 0.00572557980195 6 18 0.00406278995797 6 19 0.0040630698204 6 20 0.00574151985347 6 21 0.116944998503 6 22 0.12923400104 6 23 0.129301995039 7 0 0.000155603003805 7 1 0.00013900900376 7 2 -5.75593985559e-05 7 4 0.10969299823 7 5 0.109679996967 7 6 7.00656983099e-06 7 7 3.18390011671e-05 7 8 0.15511199832 7 10 -0.00285262009129 7 11 -0.00284313992597 7 12 0.128546997905 7 13 0.128530994058 7 14 0.194464996457 7 15 -7.4606700764e-06 7 16 -0.135429993272 7 17 -0.135431006551 7 18 -0.000173735999851 7 19 -0.000171822000993 7 20 -0.191506996751 7 21 -0.181492000818 7 22 -0.119373999536 7 23 -0.119364999235 8 0 -0.0861656963825 8 1 -0.0861499011517 8 2 0.0961168035865 8 4 -1.1659400343e-06 8 5 7.90483045421e-06 8 6 0.0884651988745 8 7 0.0884559005499 8 8 0.285062998533 8 10 -0.252119004726 8 11 -0.252130001783 8 12 1.68548995134e-05 8 13 -2.89557992801e-05 8 14 0.143096998334 8 15 1.88947001334e-06 8 16 1.99793994398e-05 8 17 1.19802998597e-05 8 18 -0.138874992728 8 19 -0.138880997896 8 20 0.134663999081 8 21 0.138389006257 8 22 2.12331997318e-05 8 23 5.01205022374e-07 9 0 -0.0199113991112 9 1 0.0198737997562 9 2 5.34762002644e-05 9 4 0.175754994154 9 5 -0.1757619977 9 6 0.16886100173 9 7 -0.168847993016 9 8 -5.84924009672e-06 9 10 -0.230175003409 9 11 0.230189993978 9 12 0.0778213962913 9 13 -0.0777589976788 9 14 2.06384993362e-05 9 15 -1.08880003609e-05 9 16 0.0768968984485 9 17 -0.0768849998713 9 18 -0.114704996347 9 19 0.114707000554 9 20 1.87090008694e-05 9 21 2.6475499908e-06 9 22 0.0757395997643 9 23 -0.0756741017103 10 0 0.000459578994196 10 1 -0.000423840014264 10 2 -2.08444998862e-06 10 4 0.15464900434 10 5 -0.154629006982 10 6 -6.78893002259e-06 10 7 -2.27705004363e-05 10 8 1.53349992615e-05 10 10 -0.00795010011643 10 11 0.00794352963567 10 12 0.186712995172 10 13 -0.186712995172 10 14 3.00249994325e-05 10 15 9.44168004935e-06 10 16 -0.194510996342 10 17 0.194510996342 10 18 -9.56223011599e-05 10 19 9.12627001526e-05 10 20 -1.85118005902e-05 10 21 1.45601998156e-05 10 22 -0.175961002707 10 23 0.175949007273 11 0 -0.107671998441 11 1 0.107689000666 11 2 -1.41471000461e-05 11 4 -0.0544214993715 11 5 0.0544167011976 11 6 -0.0584645010531 11 7 0.0584612004459 11 8 -1.27155999508e-05 11 10 -0.0426528006792 11 11 0.0426780991256 11 12 0.0688190981746 11 13 -0.0687832012773 11 14 1.641380004e-05 11 15 2.31813992286e-05 11 16 0.0620783008635 11 17 -0.0620333999395 11 18 0.0851432010531 11 19 -0.0851091966033 11 20 1.69907998497e-05 11 21 3.6103099319e-06 11 22 0.0576490014791 11 23 -0.05770149827 12 0 -0.00100584002212 12 1 -0.000986892031506 12 2 5.40168985026e-05 12 4 -0.0290973000228 12 5 -0.0290891993791 12 6 -3.24528991769e-06 12 7 -3.51126982423e-05 12 8 -0.0291095990688 12 10 -0.0183854997158 12 11 -0.0183949004859 12 12 -0.0757587999105 12 13 -0.075766697526 12 14 -0.0905561000109 12 15 0.29586699605 12 16 -0.0876720994711 12 17 -0.087698802352 12 18 -0.0891337990761 12 19 -0.0891062989831 12 20 -0.0876746028662 12 21 -0.00015881100262 12 22 -0.0148510998115 12 23 -0.014914999716 13 0 -0.0580425001681 13 1 -0.0580707006156 13 2 -0.0868974998593 13 4 0.0544258989394 13 5 0.0544368997216 13 6 -0.109724998474 13 7 -0.109696999192 13 8 0.0769598037004 13 10 0.0154536003247 13 11 0.0154347997159 13 12 0.0688154026866 13 13 0.0688420012593 13 14 0.0824571996927 13 15 3.75220997739e-06 13 16 -0.0620593987405 13 17 -0.0620701983571 13 18 -6.914849655e-05 13 19 -6.04101005592e-05 13 20 -0.0877631977201 13 21 0.0667048990726 13 22 0.0576490983367 13 23 0.0577027015388 14 0 -0.0012451299699 14 1 -0.00123582000379 14 2 -7.94579973444e-05 14 4 2.16560001718e-05 14 5 2.29363995459e-05 14 6 1.19010001072e-05 14 7 2.44870007009e-05 14 8 -0.154618993402 14 10 0.167110994458 14 11 0.167098999023 14 12 1.37677998282e-05 14 13 -6.8205402215e-08 14 14 0.200250998139 14 15 5.51442008145e-06 14 16 1.15499997264e-05 14 17 4.00940007239e-05 14 18 -0.197381004691 14 19 -0.197393000126 14 20 0.194510996342 14 21 -0.189508005977 14 22 -1.86570996448e-05 14 23 -1.32548002512e-05 15 0 -0.167195007205 15 1 -0.167193993926 15 2 0.112199999392 15 4 0.175745993853 15 5 0.175745993853 15 6 0.0224785991013 15 7 0.0224619004875 15 8 -0.248569995165 15 10 0.0534036010504 15 11 0.0533792003989 15 12 -0.0777835994959 15 13 -0.0778338983655 15 14 0.120668001473 15 15 -9.91995966615e-06 15 16 0.0768629983068 15 17 0.0768852010369 15 18 -0.00174083001912 15 19 -0.00172110996209 15 20 -0.108739003539 15 21 0.117758996785 15 22 -0.0756893977523 15 23 -0.0756852030754)" "\n"
R"(A3 9.1.6 16 16 240 0 0 0.040457598865 0 1 0.0404605008662 0 2 0.123154997826 0 4 0.246257007122 0 5 0.246254995465 0 6 0.17665399611 0 7 0.176645994186 0 8 0.131757006049 0 9 0.13176099956 0 10 0.121705003083 0 11 0.121691003442 0 12 0.168757006526 0 13 0.168746992946 0 14 0.0603369995952 0 15 0.0603380985558 1 0 0.102277003229 1 1 -0.102279998362 1 2 7.45686020309e-06 1 4 0.182281002402 1 5 -0.182300001383 1 6 0.135478004813 1 7 -0.135446995497 1 8 0.224848002195 1 9 -0.224866002798 1 10 0.0858407989144 1 11 -0.0858191996813 1 12 0.0943873003125 1 13 -0.0943526998162 1 14 0.135980993509 1 15 -0.135982006788 2 0 0.000316304998705 2 1 0.000304769986542 2 2 -0.194642007351 2 4 -0.315142989159 2 5 -0.315129011869 2 6 -0.120112001896 2 7 -0.120113000274 2 8 -0.188384994864 2 9 -0.188375994563 2 10 0.263062000275 2 11 0.26303601265 2 12 0.335967987776 2 13 0.335940986872 2 14 0.0976431965828 2 15 0.097642801702 3 0 0.0535705983639 3 1 0.0535815991461 3 2 0.203148007393 3 4 -0.36458298564 3 5 -0.364587008953 3 6 0.283531993628 3 7 0.283497005701 3 8 -0.0143504999578 3 9 -0.01434910018 3 10 0.0858397036791 3 11 0.0858134031296 3 12 -0.188764005899 3 13 -0.188758999109 3 14 -7.0309099101e-05 3 15 -7.46994992369e-05 4 0 0.124839998782 4 1 -0.124857001007 4 2 2.63636993623e-05 4 4 -0.285046011209 4 5 0.285061985254 4 6 0.246687993407 4 7 -0.246611997485 4 8 -0.035583101213 4 9 0.0355685986578 4 10 0.125637993217 4 11 -0.12561699748 4 12 -0.134666994214 4 13 0.134653002024 4 14 0.000300663989037 4 15 -0.000288862996968 5 0 0.000869586016051 5 1 -0.000847445975523 5 2 6.67730000714e-06 5 4 -0.109700001776 5 5 0.109705999494 5 6 -0.119341000915 5 7 0.119359999895 5 8 -0.164930999279 5 9 0.164923995733 5 10 0.128552004695 5 11 -0.128503993154 5 12 0.135449007154 5 13 -0.135371997952 5 14 0.19299800694 5 15 -0.192986994982 6 0 -0.0849374011159 6 1 -0.0849511027336 6 2 0.0614558011293 6 4 0.0299018993974 6 5 0.0298861991614 6 6 0.0446275994182 6 7 0.0447035990655 6 8 0.0435662008822 6 9 0.0435448996723 6 10 0.21228800714 6 11 0.212274000049 6 12 0.207372993231 6 13 0.207341000438 6 14 0.00406278995797 6 15 0.0040630698204 7 0 0.000155603003805 7 1 0.00013900900376 7 2 -0.18154899776 7 4 0.219374001026 7 5 0.219359993935 7 6 0.0181405004114 7 7 0.0181740000844 7 8 -0.00285262009129 7 9 -0.00284313992597 7 10 0.128543004394 7 11 0.128527998924 7 12 -0.270850002766 7 13 -0.270850986242 7 14 -0.000173735999851 7 15 -0.000171822000993 8 0 -0.0861656963825 8 1 -0.0861499011517 8 2 0.23450499773 8 4 0.201569005847 8 5 0.201578006148 8 6 0.189670994878 8 7 0.18964099884 8 8 -0.252119004726 8 9 -0.252130001783 8 10 1.77996007551e-05 8 11 -2.80110998574e-05 8 12 0.0952425971627 8 13 0.0952346026897 8 14 -0.138874992728 8 15 -0.138880997896 9 0 -0.0199113991112 9 1 0.0198737997562 9 2 5.61236993235e-05 9 4 0.175751000643 9 5 -0.175766006112 9 6 0.244615003467 9 7 -0.244507998228 9 8 -0.230175003409 9 9 0.230189993978 9 10 0.0778160020709 9 11 -0.0777643993497 9 12 0.0769046992064 9 13 -0.0768771991134 9 14 -0.114704996347 9 15 0.114707000554 10 0 0.000459578994196 10 1 -0.000423840014264 10 2 1.24757998492e-05 10 4 0.154660001397 10 5 -0.154617995024 10 6 -0.175945997238 10 7 0.175946995616 10 8 -0.00795010011643 10 9 0.00794352963567 10 10 0.186718001962 10 11 -0.186708003283 10 12 -0.194518998265 10 13 0.194502994418 10 14 -9.56223011599e-05 10 15 9.12627001526e-05 11 0 -0.107671998441 11 1 0.107689000666 11 2 -1.05367998913e-05 11 4 -0.0544304996729 11 5 0.0544077008963 11 6 -0.000803906994406 11 7 0.000771282007918 11 8 -0.0426528006792 11 9 0.0426780991256 11 10 0.0688306987286 11 11 -0.0687716007233 11 12 0.0621019005775 11 13 -0.0620098002255 11 14 0.0851432010531 11 15 -0.0851091966033 12 0 -0.00100584002212 12 1 -0.000986892031506 12 2 -0.000104794002254 12 4 -0.0496810004115 12 5 -0.0496728010476 12 6 -0.0788872018456 12 7 -0.0789828971028 12 8 -0.0183854997158 12 9 -0.0183949004859 12 10 0.0721746012568 12 11 0.0721665993333 12 12 -0.00173403997906 12 13 -0.00176076998468 12 14 -0.0891337990761 12 15 -0.0891062989831 13 0 -0.0580425001681 13 1 -0.0580707006156 13 2 -0.0201926007867 13 4 0.108845002949 13 5 0.108856000006 13 6 0.00623025000095 13 7 0.00631177984178 13 8 0.0154536003247 13 9 0.0154347997159 13 10 0.0688173025846 13 11 0.0688439011574 13 12 -0.124116003513 13 13 -0.124126002192 13 14 -6.914849655e-05 13 15 -6.04101005592e-05 14 0 -0.0012451299699 14 1 -0.00123582000379 14 2 -0.189586997032 14 4 -0.109310001135 14 5 -0.109309002757 14 6 0.141591995955 14 7 0.141609996557 14 8 0.167110994458 14 9 0.167098999023 14 10 1.65250003192e-05 14 11 2.68899998446e-06 14 12 0.137555003166 14 13 0.137583002448 14 14 -0.197381004691 14 15 -0.197393000126 15 0 -0.167195007205 15 1 -0.167193993926 15 2 0.229958996177 15 4 -1.93018004211e-05 15 5 -1.9376999262e-05 15 6 0.0321140997112 15 7 0.0321016013622 15 8 0.0534036010504 15 9 0.0533792003989 15 10 -0.0777885019779 15 11 -0.0778388977051 15 12 -3.23357016896e-05 15 13 -1.01692003227e-05 15 14 -0.00174083001912 15 15 -0.00172110996209)" "\n"
R"(A4 0+1+0 25 1 25 0 0 0.609331011772 1 0 3.85721978091e-06 2 0 -1.91203000099e-07 3 0 0.0723157003522 4 0 4.07870993513e-06 5 0 8.18491025711e-06 6 0 0.0920182988048 7 0 7.90879994383e-07 8 0 0.157882004976 9 0 5.32085005034e-06 10 0 3.17273986639e-07 11 0 -1.05574999907e-05 12 0 -8.20160039439e-06 13 0 0.0395773015916 14 0 -1.52543998411e-05 15 0 0.0494262985885 16 0 1.270140001e-05 17 0 -1.78367997705e-07 18 0 1.33780004035e-05 19 0 -6.37104994894e-06 20 0 0.0307440999895 21 0 -6.36642016616e-06 22 0 0.0116670997813 23 0 -9.93438970909e-06 24 0 0.0318608991802)" "\n"
R"(A4 0+2+0 25 2 50 0 0 0.609326004982 0 1 0.609336018562 1 0 0.558871984482 1 1 -0.558863997459 2 0 -8.38471009956e-07 2 1 4.56065009757e-07 3 0 0.0723022967577 3 1 0.0723290964961 4 0 0.245480999351 4 1 -0.245472997427 5 0 2.34090998674e-06 5 1 1.40289002957e-05 6 0 0.0920215025544 6 1 0.0920149981976 7 0 -1.43551005749e-07 7 1 1.72530997133e-06 8 0 0.157873004675 8 1 0.157892003655 9 0 0.105701997876 9 1 -0.105691000819 10 0 -9.19418016565e-06 10 1 9.8287300716e-06 11 0 0.0144172003493 11 1 -0.0144383003935 12 0 6.20095988779e-06 12 1 -2.26041993301e-05 13 0 0.0395664982498 13 1 0.0395880006254 14 0 -1.74919005076e-05 14 1 -1.30168000396e-05 15 0 0.0494242012501 15 1 0.0494285002351 16 0 0.117564000189 16 1 -0.117539003491 17 0 1.01197001641e-05 17 1 -1.04764003481e-05 18 0 0.0384279005229 18 1 -0.0384012013674 19 0 1.21175999084e-05 19 1 -2.48597007158e-05 20 0 0.0307369995862 20 1 0.0307512003928 21 0 1.37835995702e-05 21 1 -2.65163998847e-05 22 0 0.0116515997797 22 1 0.0116825997829 23 0 -2.01716993615e-05 23 1 3.02903004012e-07 24 0 0.031868301332 24 1 0.0318534001708)" "\n"
R"(A4 0+5+0 25 6 125 0 0 0.232067003846 0 1 0.232069000602 0 2 0.152987003326 0 4 0.432778000832 0 5 0.43277400732 1 0 0.287681996822 1 1 -0.287683993578 1 2 8.47774026624e-06 1 4 0.417730003595 1 5 -0.417708009481 2 0 1.58253005793e-05 2 1 9.17551005841e-06 2 2 -3.77128999389e-05 2 4 -4.07551988246e-06 2 5 9.94265974441e-06 3 0 0.284783005714 3 1 0.284794002771 3 2 0.245811000466 3 4 -0.398732990026 3 5 -0.398748993874 4 0 0.367406994104 4 1 -0.367406994104 4 2 3.51902999682e-05 4 4 -0.0982332006097 4 5 0.0982426032424 5 0 4.53633992947e-06 5 1 1.35443997351e-05 5 2 -1.30977996378e-05 5 4 2.47604998549e-06 5 5 1.56884004809e-06 6 0 0.120885998011 6 1 0.120907001197 6 2 0.158281996846 6 4 0.0849312990904 6 5 0.0849160030484 7 0 2.54987007793e-05 7 1 2.00817994482e-05 7 2 -4.31638000009e-06 7 4 -1.53543999204e-06 7 5 9.47703028942e-06 8 0 -0.0372336991131 8 1 -0.0372194983065 8 2 0.252252995968 8 4 -0.0751914978027 8 5 -0.0752104967833 9 0 0.171251997352 9 1 -0.171252995729 9 2 4.04497986892e-05 9 4 -0.162305995822 9 5 0.162321001291 10 0 5.73625993638e-06 10 1 5.06967990077e-06 10 2 -1.48665003508e-05 10 4 -1.50837995534e-05 10 5 5.07095001012e-06 11 0 0.024439599365 11 1 -0.0244648996741 11 2 -1.84314001217e-06 11 4 0.0514587014914 11 5 -0.0514527000487 12 0 2.46212002821e-05 12 1 2.2237200028e-05 12 2 -8.92616008059e-05 12 4 9.53837025008e-06 12 5 2.62995990852e-06 13 0 0.0991967990994 13 1 0.0992138013244 13 2 0.0888827964664 13 4 -0.0396624989808 13 5 -0.0396674983203 14 0 -1.01020996226e-05 14 1 3.93841986579e-07 14 2 -2.54545993812e-05 14 4 7.81429025665e-06 14 5 -4.1535499804e-06 15 0 -0.177775993943 15 1 -0.177790999413 15 2 0.268090009689 15 4 -0.0177212003618 15 5 -0.017706900835 16 0 0.0377614982426 16 1 -0.0377525985241 16 2 2.70686996373e-05 16 4 0.00372499995865 16 5 -0.00368161988445 17 0 8.37226980366e-06 17 1 1.07820994799e-06 17 2 -1.00427996585e-05 17 4 -6.09453991274e-06 17 5 1.45914998484e-06 18 0 0.101176999509 18 1 -0.101159997284 18 2 3.8237998524e-05 18 4 -0.0445948988199 18 5 0.0446223989129 19 0 3.12880983984e-05 19 1 -1.84697000805e-05 19 2 -2.37787007791e-05 19 4 -3.55617994501e-05 19 5 -1.89061993296e-05 20 0 0.0677779987454 20 1 0.0677924007177 20 2 0.0940558984876 20 4 0.01226889994 20 5 0.0122710000724 21 0 7.20085008652e-05 21 1 2.27946002269e-05 21 2 -1.52893007908e-05 21 4 -2.25967996812e-05 21 5 1.30190001073e-05 22 0 -0.0428513996303 22 1 -0.0428428016603 22 2 0.0335046984255 22 4 -0.00338939996436 22 5 -0.00338714011014 23 0 4.63125979877e-06 23 1 -3.87256977774e-06 23 2 -8.40749976305e-08 23 4 -1.98654997803e-05 23 5 -8.88736030902e-06 24 0 -0.107408002019 24 1 -0.107412002981 24 2 0.244509994984 24 4 0.0093100797385 24 5 0.00931982975453)" "\n"
R"(A4 0+7+0 25 8 175 0 0 0.210236996412 0 1 0.210238993168 0 2 0.163742005825 0 4 0.233094006777 0 5 0.233088001609 0 6 0.284197002649 0 7 0.284184992313 1 0 0.211273998022 1 1 -0.211271002889 1 2 1.09551001515e-05 1 4 0.36932399869 1 5 -0.369320005178 1 6 0.217806994915 1 7 -0.217798992991 2 0 2.89840008918e-05 2 1 -7.70557016949e-06 2 2 -3.61019992852e-05 2 4 -1.53989003593e-05 2 5 -2.51118990491e-07 2 6 -6.76758008922e-06 2 7 -1.42479002534e-05 3 0 0.251965999603 3 1 0.251973986626 3 2 0.226864993572 3 4 0.0418107993901 3 5 0.0417941994965 3 6 -0.399064004421 3 7 -0.399060994387 4 0 0.339958012104 4 1 -0.339953988791 4 2 3.26100016537e-05 4 4 0.0671645998955 4 5 -0.0671333000064 4 6 -0.321658998728 4 7 0.321664005518 5 0 1.88413002888e-06 5 1 2.17547003558e-05 5 2 -2.17397991946e-05 5 4 -7.52134019422e-06 5 5 -9.2125901574e-06 5 6 -1.17011995826e-06 5 7 2.43800004682e-05 6 0 0.150726005435 6 1 0.150746002793 6 2 0.174500003457 6 4 0.138365000486 6 5 0.13837300241 6 6 0.12097299844 6 7 0.120939999819 7 0 1.82728999789e-05 7 1 8.24286962597e-06 7 2 -1.84215004992e-05 7 4 -1.22077999549e-05 7 5 1.32688001031e-05 7 6 6.66429014018e-06 7 7 -4.99427005707e-06 8 0 0.0506015010178 8 1 0.0506201013923 8 2 0.256291985512 8 4 -0.367890000343 8 5 -0.367899000645 8 6 0.190689995885 8 7 0.190700992942 9 0 0.251397013664 9 1 -0.251412004232 9 2 3.82452999474e-05 9 4 -0.26597699523 9 5 0.266000002623 9 6 0.174924001098 9 7 -0.174925997853 10 0 1.27282000904e-05 10 1 4.36093978351e-06 10 2 -1.66041008924e-05 10 4 -5.72980013658e-07 10 5 -3.27935003952e-06 10 6 -1.64844004757e-06 10 7 1.08663998617e-05 11 0 0.0140548003837 11 1 -0.0140506001189 11 2 7.22193999536e-06 11 4 0.0240291003138 11 5 -0.0240183006972 11 6 0.0158565994352 11 7 -0.0158287007362 12 0 8.41984001454e-05 12 1 2.5846700737e-05 12 2 -5.01030990563e-05 12 4 -1.37211000037e-05 12 5 1.10503997348e-05 12 6 1.99406003958e-05 12 7 1.82236999535e-05 13 0 0.0304224006832 13 1 0.0304423999041 13 2 0.0251676999032 13 4 0.0189447999001 13 5 0.0189418997616 13 6 -0.0295828003436 13 7 -0.0295844003558 14 0 1.55805992108e-05 14 1 3.73158982256e-05 14 2 -4.68583994007e-06 14 4 -2.48525998359e-06 14 5 -8.02479974027e-07 14 6 1.43955003296e-05 14 7 3.48895009665e-05 15 0 -0.137641996145 15 1 -0.137639001012 15 2 0.270114988089 15 4 -0.0620140992105 15 5 -0.0620042011142 15 6 0.0369790010154 15 7 0.0369789004326 16 0 0.0822125971317 16 1 -0.0821904987097 16 2 4.74904009025e-05 16 4 -0.0352725982666 16 5 0.0353142991662 16 6 0.0329191982746 16 7 -0.0328961014748 17 0 2.31738995353e-05 17 1 -2.23062997975e-05 17 2 -7.82608003647e-06 17 4 -3.54090002475e-06 17 5 1.50317000589e-05 17 6 2.8541600841e-05 17 7 -2.52510999417e-05 18 0 0.0900750979781 18 1 -0.0900735035539 18 2 3.17662015732e-05 18 4 0.0198378004134 18 5 -0.0198304001242 18 6 -0.0896653011441 18 7 0.0896520018578 19 0 4.24181998824e-05 19 1 1.45527001223e-05 19 2 -3.6444998841e-05 19 4 -1.33000003188e-05 19 5 -7.27419001123e-06 19 6 3.62581013178e-05 19 7 2.46833005804e-05 20 0 0.0465059988201 20 1 0.0465444996953 20 2 0.0612149015069 20 4 0.0396817997098 20 5 0.0397396981716 20 6 0.0210567992181 20 7 0.0210031997412 21 0 5.54143007321e-05 21 1 9.07462981559e-06 21 2 -3.60527992598e-05 21 4 -3.69638983102e-05 21 5 3.7896901631e-05 21 6 2.30922996707e-05 21 7 -1.56376991072e-05 22 0 0.00119632005226 22 1 0.00123181997333 22 2 0.0528886988759 22 4 -0.10773999989 22 5 -0.107749000192 22 6 0.0580351017416 22 7 0.0580608993769 23 0 -8.871999853e-06 23 1 -1.25157998809e-06 23 2 -6.73887006997e-06 23 4 -1.13467003757e-05 23 5 -2.62738990386e-06 23 6 -2.64394998339e-06 23 7 -4.39552013631e-06 24 0 -0.176787003875 24 1 -0.176800996065 24 2 0.241959005594 24 4 0.137446001172 24 5 0.137449994683 24 6 -0.0615592002869 24 7 -0.0615645982325)" "\n"
R"(A4 2+5+0 25 8 175 0 0 0.146201997995 0 1 0.146209001541 0 2 0.0983716994524 0 4 0.437907993793 0 5 0.437902987003 0 6 0.110739998519 0 7 0.110728003085 1 0 0.207605004311 1 1 -0.207610994577 1 2 1.12526004159e-05 1 4 0.424371987581 1 5 -0.424351006746 1 6 0.0948406979442 1 7 -0.0948318988085 2 0 -0.177458003163 2 1 -0.177467003465 2 2 -0.127945005894 2 4 0.00823615025729 2 5 0.00824857968837 2 6 0.215755999088 2 7 0.215757995844 3 0 0.193406000733 3 1 0.193430006504 3 2 0.18469800055 3 4 -0.395141988993 3 5 -0.395159006119 3 6 0.139918997884 3 7 0.139890000224 4 0 0.273009002209 4 1 -0.27301800251 4 2 3.10850991809e-05 4 4 -0.0903216004372 4 5 0.0903268978 4 6 0.12067399919 4 7 -0.120649002492 5 0 -0.126266002655 5 1 0.126286998391 5 2 -9.05598972167e-06 5 4 0.00474898982793 5 5 -0.00474620983005 5 6 0.13704200089 5 7 -0.137046992779 6 0 -0.00253586005419 6 1 -0.00253698998131 6 2 0.0346487015486 6 4 0.088108099997 6 5 0.088093303144 6 6 0.123043999076 6 7 0.123080000281 7 0 -0.148655995727 7 1 -0.148665994406 7 2 -0.11495000124 7 4 0.00386220007204 7 5 0.00387200992554 7 6 0.211703002453 7 7 0.211705997586 8 0 -0.0366584993899 8 1 -0.036627098918 8 2 0.205730006099 8 4 -0.0819042026997 8 5 -0.0819215029478 8 6 0.0360211990774 8 7 0.0359878987074 9 0 0.124969996512 9 1 -0.124986998737 9 2 3.91009016312e-05 9 4 -0.163243994117 9 5 0.163248002529 9 6 0.0672426000237 9 7 -0.067205503583 10 0 -0.151352003217 10 1 0.151353999972 10 2 -2.85324003926e-05 10 4 0.00727456016466 10 5 -0.00729114981368 10 6 0.171675994992 10 7 -0.171671003103 11 0 -0.0534009002149 11 1 0.053384501487 11 2 4.14137002736e-06 11 4 0.045098900795 11 5 -0.0450919009745 11 6 0.0642696991563 11 7 -0.0642921999097 12 0 -0.0185136999935 12 1 -0.0185263995081 12 2 -0.065190397203 12 4 0.00155745004304 12 5 0.00155239994638 12 6 -0.0111937997863 12 7 -0.0111849000677 13 0 -0.00578767014667 13 1 -0.00579386018217 13 2 -0.0177471991628 13 4 -0.0402953997254 13 5 -0.0403006002307 13 6 0.122507996857 13 7 0.122551999986 14 0 0.0113449003547 14 1 0.0113521004096 14 2 -0.082887403667 14 4 -0.0076716998592 14 5 -0.00768131017685 14 6 0.0432308986783 14 7 0.0432357005775 15 0 -0.152560994029 15 1 -0.152536004782 15 2 0.219693005085 15 4 -0.0281566008925 15 5 -0.0281415991485 15 6 -0.00582926999778 15 7 -0.00587899982929 16 0 0.0141232004389 16 1 -0.0141425002366 16 2 3.65974010492e-05 16 4 -0.00414742995054 16 5 0.00417781015858 16 6 0.0299386996776 16 7 -0.0298887006938 17 0 -0.0738523975015 17 1 0.0738449022174 17 2 -2.56548992184e-05 17 4 -0.000696637027431 17 5 0.000673979986459 17 6 0.0894185975194 17 7 -0.0894133970141 18 0 -0.016281299293 18 1 0.0162927992642 18 2 2.5602599635e-05 18 4 -0.0472703017294 18 5 0.0472956001759 18 6 0.101846002042 18 7 -0.101861998439 19 0 0.0126649001613 19 1 -0.0126518998295 19 2 -1.22457995531e-05 19 4 -0.0115756997839 19 5 0.0115275997669 19 6 -0.0354355014861 19 7 0.0354312993586 20 0 0.0886330977082 20 1 0.088659696281 20 2 0.0823315009475 20 4 0.0207941997796 20 5 0.0207982007414 20 6 -0.0295813996345 20 7 -0.0296120997518 21 0 -0.0143446000293 21 1 -0.0143844000995 21 2 -0.0403155982494 21 4 -0.00207283999771 21 5 -0.00203659990802 21 6 -0.0139686996117 21 7 -0.0139824999496 22 0 -0.0139597998932 22 1 -0.0139766996726 22 2 -0.0390021987259 22 4 -0.00512565998361 22 5 -0.00512132002041 22 6 0.00749152991921 22 7 0.00753781013191 23 0 0.0506446994841 23 1 0.0506593994796 23 2 -0.0932962968946 23 4 -0.0111188003793 23 5 -0.0111050000414 23 6 -0.00942221004516 23 7 -0.00944686029106 24 0 -0.0990625023842 24 1 -0.0990315005183 24 2 0.203357994556 24 4 0.00534510007128 24 5 0.00535219023004 24 6 0.00287384004332 24 7 0.00283842999488)" "\n"
R"(A4 3+7+0 25 12 250 0 0 0.11236000061 0 1 0.122615002096 0 2 0.122622996569 0 3 0.130336001515 0 4 0.130333006382 0 5 0.182669997215 0 6 0.182664006948 0 7 0.186755001545 0 8 0.186746999621 0 9 0.207444995642 1 0 4.89838021167e-06 1 1 0.138543993235 1 2 -0.138552993536 1 3 0.145497992635 1 4 -0.145474001765 1 5 0.344397008419 1 6 -0.34439098835 1 7 0.156434997916 1 8 -0.156421005726 1 9 -8.95255016076e-06 2 0 -0.131341993809 2 1 -0.177522003651 2 2 -0.177546992898 2 3 0.248217999935 2 4 0.248228996992 2 5 -0.130033999681 2 6 -0.130031004548 2 7 -0.205459997058 2 8 -0.205449000001 2 9 0.408538997173 3 0 0.196958005428 3 1 0.162952005863 3 2 0.162953004241 3 3 0.144572004676 3 4 0.144562005997 3 5 0.00110371003393 3 6 0.00109877996147 3 7 -0.306192994118 3 8 -0.306190013885 3 9 -0.193758994341 4 0 7.3394598985e-06 4 1 0.232574000955 4 2 -0.232578992844 4 3 0.124789997935 4 4 -0.124746002257 4 5 0.00169821002055 4 6 -0.00169939000625 4 7 -0.251451998949 4 8 0.251437991858 4 9 -9.02938973013e-06 5 0 -2.06656004593e-05 5 1 -0.105331003666 5 2 0.105334997177 5 3 0.222440004349 5 4 -0.222424998879 5 5 -0.0590769983828 5 6 0.0590831004083 5 7 -0.0948439016938 5 8 0.0948453992605 5 9 -3.36293993541e-07 6 0 0.0306749008596 6 1 0.0364139005542 6 2 0.0364513993263 6 3 0.126651003957 6 4 0.126675993204 6 5 -0.00954474974424 6 6 -0.00956447981298 6 7 -0.0248100999743 6 8 -0.0248197000474 6 9 0.239043995738 7 0 -0.0718533024192 7 1 -0.129684999585 7 2 -0.129709005356 7 3 0.209378004074 7 4 0.209392994642 7 5 -0.0621283985674 7 6 -0.0621114000678 7 7 0.154789999127 7 8 0.154781997204 7 9 -0.282593011856 8 0 0.229736000299 8 1 0.0328354015946 8 2 0.0328207015991 8 3 0.0103209000081 8 4 0.010305300355 8 5 -0.334688991308 8 6 -0.33469799161 8 7 0.174770995975 8 8 0.174788996577 8 9 -0.00273653003387 9 0 4.89624017064e-06 9 1 0.180191993713 9 2 -0.180181995034 9 3 0.0377987995744 9 4 -0.0377475991845 9 5 -0.230720996857 9 6 0.230743005872 9 7 0.169547006488 9 8 -0.169561997056 9 9 2.78826992144e-05 10 0 -3.80573001166e-05 10 1 -0.160135000944 10 2 0.160139992833 10 3 0.157032996416 10 4 -0.157008007169 10 5 -0.0977592989802 10 6 0.097734503448 10 7 0.118496999145 10 8 -0.118492998183 10 9 -1.30384996737e-05 11 0 2.51663004747e-05 11 1 -0.0326163992286 11 2 0.0325998999178 11 3 0.138098999858 11 4 -0.138109996915 11 5 -0.0483798012137 11 6 0.0484301000834 11 7 -0.0385555997491 11 8 0.0385260991752 11 9 1.75188997673e-05 12 0 -0.0832564011216 12 1 -0.00984114035964 12 2 -0.00987987965345 12 3 -0.0382995009422 12 4 -0.0383019000292 12 5 -0.101081997156 12 6 -0.101083002985 12 7 -0.0173059999943 12 8 -0.0172962006181 12 9 -0.0262224990875 13 0 -0.059716898948 13 1 -0.0295289997011 13 2 -0.0295030009001 13 3 0.101264998317 13 4 0.101292997599 13 5 -0.0143082998693 13 6 -0.0143611002713 13 7 0.0794332027435 13 8 0.079450301826 13 9 -0.137381002307 14 0 -0.0657389983535 14 1 -0.0226622000337 14 2 -0.022696999833 14 3 0.0141981998459 14 4 0.0141944000497 14 5 0.0725739002228 14 6 0.0725843012333 14 7 -0.0440745018423 14 8 -0.0440728999674 14 9 -0.00559224002063 15 0 0.234898999333 15 1 -0.105683997273 15 2 -0.105713002384 15 3 -0.0298749990761 15 4 -0.0298846997321 15 5 -0.00456226011738 15 6 -0.00455282023177 15 7 -0.00288575002924 15 8 -0.00289358990267 15 9 0.0396681018174 16 0 1.16224000521e-05 16 1 0.0573146007955 16 2 -0.0572648011148 16 3 -0.00269859004766 16 4 0.00276064989157 16 5 -0.00476964004338 16 6 0.00474095018581 16 7 -0.0174259003252 16 8 0.0174480993301 16 9 -4.2357500206e-05 17 0 -4.01364995923e-05 17 1 -0.112291000783 17 2 0.112329997122 17 3 0.0388255007565 17 4 -0.0388039015234 17 5 0.0688463002443 17 6 -0.0688273981214 17 7 -0.0304281990975 17 8 0.0304310005158 17 9 5.34807986696e-06 18 0 4.14856986026e-05 18 1 -0.0118396002799 18 2 0.0118270004168 18 3 0.053108099848 18 4 -0.0531261004508 18 5 -0.0426926985383 18 6 0.0427328012884 18 7 0.0109540997073 18 8 -0.0109393000603 18 9 -2.4586499876e-06 19 0 -1.65238998306e-05 19 1 0.0328756012022 19 2 -0.0328387990594 19 3 0.00936616025865 19 4 -0.00937416963279 19 5 -0.049746401608 19 6 0.0497484989464 19 7 0.0123910000548 19 8 -0.0123701998964 19 9 1.37309998536e-05 20 0 0.0643132030964 20 1 0.065711401403 20 2 0.0657522007823 20 3 -0.0558370016515 20 4 -0.055859901011 20 5 0.0142873004079 20 6 0.0143159003928 20 7 0.0704725012183 20 8 0.0704362988472 20 9 -0.0913024991751 21 0 -0.039781998843 21 1 0.0355648994446 21 2 0.0355550013483 21 3 -0.0453247986734 21 4 -0.0453443005681 21 5 0.0158574003726 21 6 0.015884000808 21 7 0.00549408001825 21 8 0.00549216987565 21 9 0.0677834972739 22 0 -0.0311370007694 22 1 -0.00677167018875 22 2 -0.00676382984966 22 3 0.0066150999628 22 4 0.00661196978763 22 5 -0.0200510006398 22 6 -0.0200286004692 22 7 -0.00570242013782 22 8 -0.00573268020526 22 9 -0.00697985012084 23 0 -0.0790728032589 23 1 0.0538023002446 23 2 0.0537618994713 23 3 -0.0282106008381 23 4 -0.0282017998397 23 5 0.083459302783 23 6 0.0834638997912 23 7 -0.0509563013911 23 8 -0.0509590990841 23 9 0.0415736995637 24 0 0.203602001071 24 1 -0.145368993282 24 2 -0.145384997129 24 3 -0.000483087991597 24 4 -0.000499925983604 24 5 0.105618998408 24 6 0.105631999671 24 7 -0.0429708994925 24 8 -0.0429987981915 24 9 0.0027511799708)" "\n"
R"(A4 3.1.2 25 6 125 0 0 0.45585000515 0 1 0.455852985382 0 2 0.0983716994524 0 4 0.110739998519 0 5 0.110728003085 1 0 0.507681012154 1 1 -0.507672011852 1 2 1.12526004159e-05 1 4 0.0948406979442 1 5 -0.0948318988085 2 0 -0.17163400352 2 1 -0.171635001898 2 2 -0.127945005894 2 4 0.215755999088 2 5 0.215757995844 3 0 -0.0860014036298 3 1 -0.0859898999333 3 2 0.18469800055 3 4 0.139918997884 3 5 0.139890000224 4 0 0.209141999483 4 1 -0.209147006273 4 2 3.10850991809e-05 4 4 0.12067399919 4 5 -0.120649002492 5 0 -0.122908003628 5 1 0.122929997742 5 2 -9.05598972167e-06 5 4 0.13704200089 5 5 -0.137046992779 6 0 0.0597659982741 6 1 0.0597544014454 6 2 0.0346487015486 6 4 0.123043999076 6 5 0.123080000281 7 0 -0.14592500031 7 1 -0.145927995443 7 2 -0.11495000124 7 4 0.211703002453 7 5 0.211705997586 8 0 -0.0945734977722 8 1 -0.094554297626 8 2 0.205730006099 8 4 0.0360211990774 8 5 0.0359878987074 9 0 0.00953918974847 9 1 -0.00955327041447 9 2 3.91009016312e-05 9 4 0.0672426000237 9 5 -0.067205503583 10 0 -0.146208003163 10 1 0.146199002862 10 2 -2.85324003926e-05 10 4 0.171675994992 10 5 -0.171671003103 11 0 -0.0215111002326 11 1 0.0214997008443 11 2 4.14137002736e-06 11 4 0.0642696991563 11 5 -0.0642921999097 12 0 -0.017412500456 12 1 -0.0174286998808 12 2 -0.065190397203 12 4 -0.0111937997863 12 5 -0.0111849000677 13 0 -0.0342807993293 13 1 -0.0342907011509 13 2 -0.0177471991628 13 4 0.122507996857 13 5 0.122551999986 14 0 0.00592022016644 14 1 0.00592058990151 14 2 -0.082887403667 14 4 0.0432308986783 14 5 0.0432357005775 15 0 -0.172471001744 15 1 -0.172435000539 15 2 0.219693005085 15 4 -0.00582926999778 15 5 -0.00587899982929 16 0 0.0111905997619 16 1 -0.011188399978 16 2 3.65974010492e-05 16 4 0.0299386996776 16 5 -0.0298887006938 17 0 -0.0743450000882 17 1 0.074321500957 17 2 -2.56548992184e-05 17 4 0.0894185975194 17 5 -0.0894133970141 18 0 -0.0497065000236 18 1 0.0497359000146 18 2 2.5602599635e-05 18 4 0.101846002042 18 5 -0.101861998439 19 0 0.00447966018692 19 1 -0.00450064986944 19 2 -1.22457995531e-05 19 4 -0.0354355014861 19 5 0.0354312993586 20 0 0.10333699733 20 1 0.10336600244 20 2 0.0823315009475 20 4 -0.0295813996345 20 5 -0.0296120997518 21 0 -0.0158104002476 21 1 -0.0158245004714 21 2 -0.0403155982494 21 4 -0.0139686996117 21 5 -0.0139824999496 22 0 -0.0175841990858 22 1 -0.0175979994237 22 2 -0.0390021987259 22 4 0.00749152991921 22 5 0.00753781013191 23 0 0.0427826009691 23 1 0.0428070016205 23 2 -0.0932962968946 23 4 -0.00942221004516 23 5 -0.00944686029106 24 0 -0.0952830016613 24 1 -0.0952469035983 24 2 0.203357994556 24 4 0.00287384004332 24 5 0.00283842999488)" "\n"
R"(A4 4+5+0 25 10 225 0 0 0.148800000548 0 1 0.148807004094 0 2 0.0987310037017 0 4 0.319440990686 0 5 0.319431990385 0 6 0.113093003631 0 7 0.113080002367 0 8 0.152646005154 0 9 0.15265199542 1 0 0.213877007365 1 1 -0.213881000876 1 2 1.1293699572e-05 1 4 0.320665001869 1 5 -0.320641994476 1 6 0.100216001272 1 7 -0.100206002593 1 8 0.138708993793 1 9 -0.138714000583 2 0 -0.176507994533 2 1 -0.176517993212 2 2 -0.128413006663 2 4 -0.252981007099 2 5 -0.252970993519 2 6 0.218627005816 2 7 0.218627005816 2 8 0.301887989044 2 9 0.301890999079 3 0 0.19566899538 3 1 0.195693001151 3 2 0.185371994972 3 4 -0.357876002789 3 5 -0.357885986567 3 6 0.141848996282 3 7 0.141819000244 3 8 -0.0902343019843 3 9 -0.090244397521 4 0 0.27770999074 4 1 -0.277718991041 4 2 3.11986004817e-05 4 4 -0.086516700685 4 5 0.0865145027637 4 6 0.124375000596 4 7 -0.124347999692 4 8 -0.0232043005526 4 9 0.0232142005116 5 0 -0.122681997716 5 1 0.122703000903 5 2 -9.08906986297e-06 5 4 -0.168414995074 5 5 0.168414995074 5 6 0.142645001411 5 7 -0.142648994923 5 8 0.204079002142 5 9 -0.204078003764 6 0 -0.00647488003597 6 1 -0.00647494988516 6 2 0.0347752012312 6 4 -0.120609998703 6 5 -0.120613999665 6 6 0.120654001832 6 7 0.120690003037 6 8 0.178022995591 6 9 0.178009003401 7 0 -0.1480319947 7 1 -0.148040995002 7 2 -0.115369997919 7 4 0.0835207998753 7 5 0.0835342034698 7 6 0.213929995894 7 7 0.213933005929 7 8 -0.145916000009 7 9 -0.145921006799 8 0 -0.0428631007671 8 1 -0.0428293012083 8 2 0.206481993198 8 4 -0.0156513005495 8 5 -0.0156501997262 8 6 0.0308036003262 8 7 0.0307711008936 8 8 -0.0649423971772 8 9 -0.0649698972702 9 0 0.120480000973 9 1 -0.120499998331 9 2 3.92436995753e-05 9 4 -0.118533998728 9 5 0.118532001972 9 6 0.0632819980383 9 7 -0.0632449015975 9 8 -0.0608568005264 9 9 0.0608761012554 10 0 -0.148926004767 10 1 0.148927003145 10 2 -2.86365993816e-05 10 4 0.0245833992958 10 5 -0.024602400139 10 6 0.175892993808 10 7 -0.175886005163 10 8 -0.039160400629 10 9 0.0391640998423 11 0 -0.058425500989 11 1 0.0584071986377 11 2 4.15648992202e-06 11 4 -0.0759761035442 11 5 0.0759695991874 11 6 0.0621964000165 11 7 -0.0622182004154 11 8 0.102794997394 11 9 -0.102784998715 12 0 -0.0231851991266 12 1 -0.0231976993382 12 2 -0.0654285028577 12 4 -0.0535873994231 12 5 -0.0535761006176 12 6 -0.0165484007448 12 7 -0.0165382009 12 8 -0.0219545997679 12 9 -0.0219695996493 13 0 -0.00714077986777 13 1 -0.00714707002044 13 2 -0.0178120005876 13 4 0.0495983995497 13 5 0.0495798997581 13 6 0.122330002487 13 7 0.122373998165 13 8 -0.101662002504 13 9 -0.101648002863 14 0 0.00663474015892 14 1 0.00664226990193 14 2 -0.083190202713 14 4 0.0943768024445 14 5 0.0943863987923 14 6 0.0375754982233 14 7 0.0375817008317 14 8 -0.0824443027377 14 9 -0.0824659988284 15 0 -0.15837700665 15 1 -0.158352002501 15 2 0.220495000482 15 4 -0.0351798981428 15 5 -0.0351842008531 15 6 -0.0103136003017 15 7 -0.010362200439 15 8 0.0148999998346 15 9 0.0149363996461 16 0 0.00863699987531 16 1 -0.00865752995014 16 2 3.67311004084e-05 16 4 -0.00636478979141 16 5 0.00640831002966 16 6 0.0255311001092 16 7 -0.025482300669 16 8 0.00988255999982 16 9 -0.00992759037763 17 0 -0.0782421007752 17 1 0.0782342031598 17 2 -2.57486008195e-05 17 4 0.0753813013434 17 5 -0.0754085034132 17 6 0.084842197597 17 7 -0.0848369970918 17 8 -0.0857852995396 17 9 0.0857885032892 18 0 -0.0182760003954 18 1 0.0182873997837 18 2 2.56960993283e-05 18 4 -0.0143299996853 18 5 0.0143715003505 18 6 0.102032996714 18 7 -0.102045997977 18 8 -0.03613910079 18 9 0.0361313000321 19 0 0.0051547200419 19 1 -0.00514200003818 19 2 -1.22906003526e-05 19 4 -0.0148970996961 19 5 0.0148355998099 19 6 -0.0434671007097 19 7 0.0434619002044 19 8 -0.0432767011225 19 9 0.0432738997042 20 0 0.0912104025483 20 1 0.0912360027432 20 2 0.0826321989298 20 4 0.0700692981482 20 5 0.0700751021504 20 6 -0.0303211007267 20 7 -0.0303507000208 20 8 -0.0788244009018 20 9 -0.0788208991289 21 0 -0.0165614001453 21 1 -0.0166017003357 21 2 -0.0404628999531 21 4 0.0595057010651 21 5 0.0595171004534 21 6 -0.0162527002394 21 7 -0.0162662994117 21 8 -0.011068300344 21 9 -0.01104770042 22 0 -0.0106710996479 22 1 -0.0106904003769 22 2 -0.0391446016729 22 4 0.0613926015794 22 5 0.0613914988935 22 6 0.00795647036284 22 7 0.00800369959325 22 8 -0.0267792996019 22 9 -0.0267677996308 23 0 0.0462730005383 23 1 0.0462866984308 23 2 -0.0936371013522 23 4 -0.0307257995009 23 5 -0.0307292994112 23 6 -0.0147625999525 23 7 -0.0147833004594 23 8 0.0198162999004 23 9 0.0198337007314 24 0 -0.0964376032352 24 1 -0.0964106991887 24 2 0.204099997878 24 4 0.000304148008581 24 5 0.000313372001983 24 6 0.00533105991781 24 7 0.00529634999111 24 8 0.00629886006936 24 9 0.00629964005202)" "\n"
R"(A4 4+5+1 25 11 250 0 0 0.079400703311 0 1 0.0794067978859 0 2 0.0329945981503 0 4 0.337179988623 0 5 0.337170988321 0 6 0.113137997687 0 7 0.113124996424 0 8 0.152706995606 0 9 0.152713000774 0 10 0.141771003604 1 0 0.162080004811 1 1 -0.162082001567 1 2 1.59754999913e-05 1 4 0.347427994013 1 5 -0.347416996956 1 6 0.100256003439 1 7 -0.10024599731 1 8 0.138763993979 1 9 -0.138769000769 1 10 -6.24071981292e-06 2 0 -0.0174035001546 2 1 -0.0174157992005 2 2 0.00925377011299 2 4 -0.286989986897 2 5 -0.286987006664 2 6 0.218713998795 2 7 0.218713998795 2 8 0.302008986473 2 9 0.302011996508 2 10 -0.281856000423 3 0 0.133240997791 3 1 0.13326099515 3 2 0.0942350029945 3 4 -0.334930002689 3 5 -0.334942996502 3 6 0.141904994845 3 7 0.141874998808 3 8 -0.0902703031898 3 9 -0.0902805030346 3 10 0.198063999414 4 0 0.219145998359 4 1 -0.219163998961 4 2 4.11071014241e-05 4 4 -0.0486767999828 4 5 0.0486686006188 4 6 0.124424003065 4 7 -0.124398000538 4 8 -0.0232136007398 4 9 0.0232235006988 4 10 4.911799806e-06 5 0 -0.0280143003911 5 1 0.0280357003212 5 2 -2.42777991843e-06 5 4 -0.211802005768 5 5 0.211833000183 5 6 0.142701998353 5 7 -0.142706006765 5 8 0.204161003232 5 9 -0.204159006476 5 10 7.04930016582e-06 6 0 -0.152155995369 6 1 -0.15215100348 6 2 -0.0700706988573 6 4 -0.102732002735 6 5 -0.102719001472 6 6 0.120701998472 6 7 0.120737999678 6 8 0.178093999624 6 9 0.178080007434 6 10 0.169517993927 7 0 -0.02879220061 7 1 -0.0288056004792 7 2 0.0241141002625 7 4 0.0484872981906 7 5 0.048490498215 7 6 0.214016005397 7 7 0.214018002152 7 8 -0.145973995328 7 9 -0.145979002118 7 10 -0.304010987282 8 0 -0.0388525985181 8 1 -0.0388299003243 8 2 0.123728998005 8 4 -0.0130855003372 8 5 -0.0130911003798 8 6 0.0308158993721 8 7 0.0307833999395 8 8 -0.0649683997035 8 9 -0.0649958029389 8 10 0.103045001626 9 0 0.0918148010969 9 1 -0.0918331965804 9 2 6.48760033073e-05 9 4 -0.093573898077 9 5 0.0935793966055 9 6 0.06330730021 9 7 -0.0632701963186 9 8 -0.060881100595 9 9 0.060900401324 9 10 7.94332026999e-06 10 0 -0.0398975983262 10 1 0.0399270989001 10 2 -7.25382005839e-06 10 4 -0.0374673008919 10 5 0.0374801009893 10 6 0.175963997841 10 7 -0.175955995917 10 8 -0.0391759984195 10 9 0.0391797982156 10 10 -1.19319001897e-05 11 0 -0.142791002989 11 1 0.142766997218 11 2 -2.05085998459e-05 11 4 -0.046342600137 11 5 0.0462926998734 11 6 0.0622211992741 11 7 -0.0622431002557 11 8 0.102835997939 11 9 -0.10282599926 11 10 2.1739699605e-06 12 0 0.0395081005991 12 1 0.0395090989769 12 2 -0.0258511006832 12 4 -0.0496877990663 12 5 -0.0496870987117 12 6 -0.0165550000966 12 7 -0.0165448002517 12 8 -0.0219634007663 12 9 -0.0219784006476 12 10 0.0157104991376 13 0 -0.1239920035 13 1 -0.123990997672 13 2 -0.102112002671 13 4 0.0686749964952 13 5 0.0686834976077 13 6 0.122378997505 13 7 0.122423000634 13 8 -0.101703003049 13 9 -0.101689003408 13 10 0.183409005404 14 0 -0.00381676992401 14 1 -0.00380209996365 14 2 0.0315301008523 14 4 0.0909150019288 14 5 0.0909207984805 14 6 0.0375906005502 14 7 0.0375967994332 14 8 -0.082477197051 14 9 -0.0824989974499 14 10 -0.117850996554 15 0 -0.138329997659 15 1 -0.138326004148 15 2 0.137143999338 15 4 -0.049609798938 15 5 -0.0496216006577 15 6 -0.0103176999837 15 7 -0.0103663001209 15 8 0.0149060003459 15 9 0.0149424001575 15 10 0.0509165003896 16 0 -0.00170099001843 16 1 0.0017033299664 16 2 7.76473025326e-05 16 4 0.00147389003541 16 5 -0.00140720000491 16 6 0.0255412999541 16 7 -0.0254925005138 16 8 0.00988650973886 16 9 -0.00993155967444 16 10 6.69123983243e-06 17 0 -0.0244909003377 17 1 0.0244979001582 17 2 -1.39622998176e-05 17 4 0.0346698015928 17 5 -0.0346818007529 17 6 0.0848760977387 17 7 -0.0848708972335 17 8 -0.0858196020126 17 9 0.0858227983117 17 10 -7.52590995035e-06 18 0 -0.130555003881 18 1 0.1305270046 18 2 -4.08011001127e-05 18 4 0.0371217988431 18 5 -0.0371383987367 18 6 0.102073997259 18 7 -0.102086000144 18 8 -0.036153499037 18 9 0.036145798862 18 10 1.88782996702e-05 19 0 0.0331858992577 19 1 -0.033171698451 19 2 5.77868013352e-06 19 4 -0.0153364995494 19 5 0.0153075000271 19 6 -0.0434845015407 19 7 0.0434793010354 19 8 -0.0432940013707 19 9 0.0432911999524 19 10 -1.02615003925e-05 20 0 0.102032996714 20 1 0.102021999657 20 2 0.0630199983716 20 4 0.0671366974711 20 5 0.0671404972672 20 6 -0.0303332991898 20 7 -0.0303629003465 20 8 -0.0788559019566 20 9 -0.0788524001837 20 10 -0.0693408027291 21 0 0.0395134985447 21 1 0.0394936986268 21 2 -0.0429361984134 21 4 0.0662238001823 21 5 0.0662136003375 21 6 -0.0162591002882 21 7 -0.0162728000432 21 8 -0.0110726999119 21 9 -0.0110520999879 21 10 0.0123560996726 22 0 0.00971421040595 22 1 0.00969063024968 22 2 -0.097026899457 22 4 0.0625668987632 22 5 0.0625863000751 22 6 0.00795964989811 22 7 0.00800689961761 22 8 -0.0267900004983 22 9 -0.0267785005271 22 10 0.0133509002626 23 0 0.00994761008769 23 1 0.00998795963824 23 2 0.0333227999508 23 4 -0.00937739014626 23 5 -0.00937907956541 23 6 -0.014768499881 23 7 -0.0147892003879 23 8 0.0198241993785 23 9 0.0198416002095 23 10 -0.0431726016104 24 0 -0.0813867971301 24 1 -0.0813784971833 24 2 0.135814994574 24 4 -0.0183892007917 24 5 -0.0183780007064 24 6 0.00533318985254 24 7 0.00529847014695 24 8 0.00630138022825 24 9 0.00630216021091 24 10 0.025863699615)" "\n"
R"(A4 4+7+0 25 12 275 0 0 0.122739002109 0 1 0.122746996582 0 2 0.112474001944 0 4 0.156079992652 0 5 0.156081005931 0 6 0.183064997196 0 7 0.183052003384 0 8 0.142270997167 0 9 0.142262995243 0 10 0.142508000135 0 11 0.142510995269 1 0 0.138685002923 1 1 -0.138693004847 1 2 4.90334014103e-06 1 4 0.29013299942 1 5 -0.290141999722 1 6 0.147587001324 1 7 -0.147568002343 1 8 0.139090001583 1 9 -0.139063000679 1 10 0.133104994893 1 11 -0.133120000362 2 0 -0.177700996399 2 1 -0.177726000547 2 2 -0.131475001574 2 4 -0.173819005489 2 5 -0.173805996776 2 6 -0.211342006922 2 7 -0.211337000132 2 8 0.274255990982 2 9 0.274255990982 2 10 0.274899989367 2 11 0.27489900589 3 0 0.163117006421 3 1 0.163118004799 3 2 0.197157993913 3 4 0.0264248996973 3 5 0.0264040995389 3 6 -0.298213005066 3 7 -0.29820099473 3 8 0.13936200738 3 9 0.13936200738 3 10 -0.139703005552 3 11 -0.139700993896 4 0 0.232810005546 4 1 -0.232814997435 4 2 7.34689001547e-06 4 4 0.0453639999032 4 5 -0.04533040151 4 6 -0.232978999615 4 7 0.23296199739 4 8 0.12839999795 4 9 -0.128367006779 4 10 -0.113433003426 4 11 0.11342599988 5 0 -0.105437003076 5 1 0.105442002416 5 2 -2.06865006476e-05 5 4 -0.14117500186 5 5 0.141157999635 5 6 -0.104579001665 5 7 0.104589000344 5 8 0.198255002499 5 9 -0.19823500514 5 10 0.193357005715 5 11 -0.193359002471 6 0 0.0364506989717 6 1 0.0364882983267 6 2 0.030705999583 6 4 -0.00743788015097 6 5 -0.0074628200382 6 6 -0.0221948996186 6 7 -0.0221922006458 6 8 0.147855997086 6 9 0.147876992822 6 10 0.14808100462 6 11 0.148067995906 7 0 -0.129816994071 7 1 -0.129840001464 7 2 -0.0719261020422 7 4 -0.024663599208 7 5 -0.0246591996402 7 6 0.166909992695 7 7 0.166911005974 7 8 0.198374003172 7 9 0.198404997587 7 10 -0.199774995446 7 11 -0.199778005481 8 0 0.0328686982393 8 1 0.0328539013863 8 2 0.229967996478 8 4 -0.300020009279 8 5 -0.300024986267 8 6 0.169955000281 8 7 0.169979006052 8 8 0.000497522007208 8 9 0.000488232995849 8 10 0.000293405988486 8 11 0.000266971997917 9 0 0.180373996496 9 1 -0.180363997817 9 2 4.90119009555e-06 9 4 -0.225903004408 9 5 0.225892007351 9 6 0.147801995277 9 7 -0.14782500267 9 8 0.0287005994469 9 9 -0.028647499159 9 10 0.00579483015463 9 11 -0.00576554005966 10 0 -0.160297006369 10 1 0.160301998258 10 2 -3.80958008463e-05 10 4 -0.0324089005589 10 5 0.0324257984757 10 6 0.140290006995 10 7 -0.140294000506 10 8 0.168188005686 10 9 -0.168173000216 10 10 -0.155312001705 10 11 0.155297994614 11 0 -0.0326494015753 11 1 0.0326328985393 11 2 2.51917008427e-05 11 4 -0.0866319984198 11 5 0.0866706967354 11 6 -0.0356147997081 11 7 0.0355876013637 11 8 0.0884848982096 11 9 -0.0884985029697 11 10 0.0929747000337 11 11 -0.0929507017136 12 0 -0.00985109992325 12 1 -0.00988988019526 12 2 -0.0833406969905 12 4 -0.0435716994107 12 5 -0.0435855984688 12 6 -0.00595941999927 12 7 -0.00592309003696 12 8 -0.0315743982792 12 9 -0.0315705984831 12 10 -0.0329324007034 12 11 -0.0329403989017 13 0 -0.0295589007437 13 1 -0.0295327994972 13 2 -0.0597773008049 13 4 0.00295947003178 13 5 0.00292531005107 13 6 0.0825764983892 13 7 0.0825809985399 13 8 0.088142298162 13 9 0.0881823003292 13 10 -0.0894870012999 13 11 -0.0895053967834 14 0 -0.0226850993931 14 1 -0.0227199997753 14 2 -0.0658055022359 14 4 0.127379998565 14 5 0.127386003733 14 6 -0.0531391017139 14 7 -0.0531257018447 14 8 0.000262621993897 14 9 0.000273293990176 14 10 0.00131320999935 14 11 0.00130532996263 15 0 -0.105791002512 15 1 -0.105820000172 15 2 0.235136002302 15 4 -0.0438240990043 15 5 -0.0437912009656 15 6 -0.00282705994323 15 7 -0.00286198011599 15 8 -0.0276523008943 15 9 -0.0276836007833 15 10 0.0280058998615 15 11 0.0280200000852 16 0 0.0573725998402 16 1 -0.0573226995766 16 2 1.1634099792e-05 16 4 -0.0240794997662 16 5 0.0240623001009 16 6 0.000635230971966 16 7 -0.000593719014432 16 8 0.000784145027865 16 9 -0.000706490012817 16 10 0.0253100004047 16 11 -0.0253574997187 17 0 -0.112405002117 17 1 0.112443998456 17 2 -4.01770994358e-05 17 4 0.07935000211 17 5 -0.0793699994683 17 6 -0.0580639988184 17 7 0.058050699532 17 8 0.0256446991116 17 9 -0.0256185997277 17 10 0.0049182898365 17 11 -0.00491733010858 18 0 -0.0118516003713 18 1 0.0118389995769 18 2 4.1527699068e-05 18 4 -0.000724756973796 18 5 0.000768050027546 18 6 0.0125890001655 18 7 -0.012578099966 18 8 0.0753308981657 18 9 -0.0753452032804 18 10 -0.0817554965615 18 11 0.081742502749 19 0 0.0329089015722 19 1 -0.0328719988465 19 2 -1.65405999724e-05 19 4 -0.0121772000566 19 5 0.0121807996184 19 6 0.0258690007031 19 7 -0.0258614998311 19 8 -0.0549796000123 19 9 0.0549601018429 19 10 -0.0464130006731 19 11 0.0464316010475 20 0 0.0657778978348 20 1 0.0658186972141 20 2 0.0643782988191 20 4 0.0750666037202 20 5 0.0750996023417 20 6 0.0790131986141 20 7 0.0789813995361 20 8 -0.0586125999689 20 9 -0.0586251989007 20 10 -0.0605443008244 20 11 -0.0605424009264 21 0 0.03560090065 21 1 0.0355909988284 21 2 -0.0398221984506 21 4 0.000128846993903 21 5 0.000195012995391 21 6 -0.00599962007254 21 7 -0.00603805016726 21 8 -0.055269099772 21 9 -0.0552848987281 21 10 0.0567050985992 21 11 0.0566775985062 22 0 -0.00677852984518 22 1 -0.00677066994831 22 2 -0.0311684999615 22 4 0.0173643007874 22 5 0.0173595007509 22 6 -0.0128191998228 22 7 -0.0128365997225 22 8 -0.000430313986726 22 9 -0.000413734989706 22 10 0.00143277994357 22 11 0.00145608000457 23 0 0.0538568012416 23 1 0.0538162998855 23 2 -0.0791528001428 23 4 0.0253893006593 23 5 0.0254273992032 23 6 -0.0490019991994 23 7 -0.0490412004292 23 8 -0.0250174999237 23 9 -0.0250436998904 23 10 0.024720100686 23 11 0.0247060991824 24 0 -0.145515993237 24 1 -0.145531997085 24 2 0.203807994723 24 4 0.119978003204 24 5 0.119962997735 24 6 -0.0410979017615 24 7 -0.0410970002413 24 8 0.00553855998442 24 9 0.00553327985108 24 10 0.00601920997724 24 11 0.00601792009547)" "\n"
R"(A4 4+9+0 25 14 325 0 0 0.106743998826 0 1 0.106758996844 0 2 0.0817997977138 0 4 0.155116006732 0 5 0.15511700511 0 6 0.18261000514 0 7 0.182596996427 0 8 0.144624993205 0 9 0.144614994526 0 10 0.144819006324 0 11 0.144822001457 0 12 0.0629315972328 0 13 0.0629058033228 1 0 0.130910992622 1 1 -0.130933001637 1 2 -7.30035981178e-06 1 4 0.295477002859 1 5 -0.295484006405 1 6 0.150347992778 1 7 -0.150326997042 1 8 0.141396000981 1 9 -0.141368001699 1 10 0.135263994336 1 11 -0.135278001428 1 12 0.0213185008615 1 13 -0.0212804991752 2 0 -0.157755002379 2 1 -0.157756999135 2 2 -0.0968651026487 2 4 -0.167565003037 2 5 -0.167551994324 2 6 -0.205889999866 2 7 -0.205886006355 2 8 0.278730005026 2 9 0.27872800827 2 10 0.279356986284 2 11 0.279356002808 2 12 -0.114593997598 2 13 -0.114602997899 3 0 0.129947006702 3 1 0.129970997572 3 2 0.128910005093 3 4 0.0267989002168 3 5 0.0267776995897 3 6 -0.303737998009 3 7 -0.303725004196 3 8 0.141745001078 3 9 0.141739994287 3 10 -0.141967996955 3 11 -0.141966000199 3 12 0.0745977014303 3 13 0.0745330005884 4 0 0.211364999413 4 1 -0.211400002241 4 2 -1.2692299606e-05 4 4 0.0461709983647 4 5 -0.0461340993643 4 6 -0.237136006355 4 7 0.237121999264 4 8 0.130603000522 4 9 -0.130567997694 4 10 -0.115272000432 4 11 0.115264996886 4 12 0.0523829013109 4 13 -0.0523087009788 5 0 -0.101470001042 5 1 0.101456001401 5 2 -1.93241994566e-05 5 4 -0.144841000438 5 5 0.144819006324 5 6 -0.107069000602 5 7 0.107073999941 5 8 0.201499998569 5 9 -0.201478004456 5 10 0.196492001414 5 11 -0.19649399817 5 12 -0.0133766997606 5 13 0.0133646996692 6 0 0.0390940010548 6 1 0.0391024984419 6 2 0.046285700053 6 4 -0.0187257006764 6 5 -0.0187510997057 6 6 -0.0334700010717 6 7 -0.0334670990705 6 8 0.150151997805 6 9 0.150176003575 6 10 0.15048199892 6 11 0.150469005108 6 12 0.0770505964756 6 13 0.077083401382 7 0 -0.104663997889 7 1 -0.10464899987 7 2 -0.0180811006576 7 4 -0.0249342992902 7 5 -0.0249295998365 7 6 0.171165004373 7 7 0.171167001128 7 8 0.201657995582 7 9 0.20168299973 7 10 -0.20301400125 7 11 -0.203016996384 7 12 -0.0617699995637 7 13 -0.061782900244 8 0 -0.00675369985402 8 1 -0.0067520798184 8 2 0.155533999205 8 4 -0.304935991764 8 5 -0.304940998554 8 6 0.173244997859 8 7 0.17326900363 8 8 0.000626103021204 8 9 0.000608872971497 8 10 0.000298163999105 8 11 0.00027130098897 8 12 0.0776380002499 8 13 0.0775858014822 9 0 0.142482995987 9 1 -0.142509996891 9 2 -1.17592999231e-05 9 4 -0.229816004634 9 5 0.229807004333 9 6 0.15031799674 9 7 -0.150340005755 9 8 0.0293301995844 9 9 -0.0292736999691 9 10 0.0058887898922 9 11 -0.0058590201661 9 12 0.0829581022263 9 13 -0.0828720033169 10 0 -0.148952007294 10 1 0.148909002542 10 2 -4.32753986388e-05 10 4 -0.0331057012081 10 5 0.0331153981388 10 6 0.143435001373 10 7 -0.14344599843 10 8 0.170992001891 10 9 -0.170973002911 10 10 -0.157829999924 10 11 0.157815992832 10 12 -0.0308494009078 10 13 0.0308494996279 11 0 -0.0289976000786 11 1 0.0289861001074 11 2 5.43722990187e-06 11 4 -0.0863618031144 11 5 0.0864095017314 11 6 -0.0352210998535 11 7 0.0352014005184 11 8 0.0898652002215 11 9 -0.089877396822 11 10 0.0944821015 11 11 -0.0944577008486 11 12 -0.00688264006749 11 13 0.00693129980937 12 0 -0.013719599694 12 1 -0.0137822004035 12 2 -0.101648002863 12 4 -0.0347631014884 12 5 -0.0347771011293 12 6 0.00324647990055 12 7 0.00328333000652 12 8 -0.0321707986295 12 9 -0.0321613997221 12 10 -0.033466398716 12 11 -0.0334745012224 12 12 -0.0547766983509 12 13 -0.0547547005117 13 0 -0.0208215005696 13 1 -0.0208147000521 13 2 -0.0434788018465 13 4 0.00282715004869 13 5 0.00279199006036 13 6 0.0818803980947 13 7 0.0818848013878 13 8 0.0894336998463 13 9 0.0894778966904 13 10 -0.090937897563 13 11 -0.0909565985203 13 12 -0.00965068023652 13 13 -0.00965682044625 14 0 0.0072904699482 14 1 0.00729071022943 14 2 -0.0072564301081 14 4 0.129619002342 14 5 0.129624992609 14 6 -0.0552031993866 14 7 -0.0551897995174 14 8 0.000334075011779 14 9 0.000338743004249 14 10 0.00133450003341 14 11 0.00132648996077 14 12 -0.0576940998435 14 13 -0.0577193982899 15 0 -0.14404399693 15 1 -0.14407299459 15 2 0.172179996967 15 4 -0.044745799154 15 5 -0.0447123982012 15 6 -0.00291894003749 15 7 -0.00295460992493 15 8 -0.0280325002968 15 9 -0.0280754007399 15 10 0.0284599997103 15 11 0.0284742992371 15 12 0.0712295994163 15 13 0.0712049975991 16 0 0.00518391979858 16 1 -0.00516630988568 16 2 7.5850898611e-06 16 4 -0.0244753994048 16 5 0.0244583003223 16 6 0.000715903996024 16 7 -0.000672854017466 16 8 0.000949385983404 16 9 -0.000864461995661 16 10 0.0257204007357 16 11 -0.0257686004043 16 12 0.105650000274 16 13 -0.105557002127 17 0 -0.0910561010242 17 1 0.0910283997655 17 2 -4.83898984385e-05 17 4 0.0812383964658 17 5 -0.0812657028437 17 6 -0.0593084990978 17 7 0.0592890009284 17 8 0.0261739008129 17 9 -0.0261417999864 17 10 0.004998030141 17 11 -0.00499706016853 17 12 -0.0485519990325 17 13 0.0485772006214 18 0 -0.00802198983729 18 1 0.00801730994135 18 2 -1.06352001694e-06 18 4 -0.000475278997328 18 5 0.00053352501709 18 6 0.011551800184 18 7 -0.011526199989 18 8 0.0764617994428 18 9 -0.076472401619 18 10 -0.0830810964108 18 11 0.0830677971244 18 12 -0.00583259994164 18 13 0.00592119991779 19 0 0.0318964011967 19 1 -0.0318247005343 19 2 1.12031002573e-05 19 4 -0.0136257000268 19 5 0.0136197004467 19 6 0.0255527999252 19 7 -0.0255542993546 19 8 -0.0559336990118 19 9 0.0559122003615 19 10 -0.0471654981375 19 11 0.0471844002604 19 12 0.00239589996636 19 13 -0.00248782988638 20 0 0.0572675988078 20 1 0.0572815015912 20 2 0.0519323982298 20 4 0.0706596001983 20 5 0.0706932991743 20 6 0.0747418031096 20 7 0.0747094973922 20 8 -0.0594694986939 20 9 -0.0594820007682 20 10 -0.0615258999169 20 11 -0.0615240000188 20 12 0.0467590987682 20 13 0.0468222014606 21 0 0.0262123998255 21 1 0.0261457003653 21 2 -0.0596635006368 21 4 0.000294463010505 21 5 0.000362291990314 21 6 -0.00432169018313 21 7 -0.00436080992222 21 8 -0.0563059002161 21 9 -0.0563129000366 21 10 0.0576245002449 21 11 0.0575966015458 21 12 0.0147888995707 21 13 0.014881500043 22 0 -0.00484360987321 22 1 -0.00485084019601 22 2 -0.0286474004388 22 4 0.0172796994448 22 5 0.0172745995224 22 6 -0.0113495001569 22 7 -0.011367100291 22 8 -0.000539215980098 22 9 -0.000516634027008 22 10 0.00145601003896 22 11 0.00147967995144 22 12 -0.00632363976911 22 13 -0.00631082011387 23 0 0.0864102989435 23 1 0.0863837003708 23 2 -0.0225833002478 23 4 0.0263145994395 23 5 0.0263535007834 23 6 -0.0496609993279 23 7 -0.0497004985809 23 8 -0.0253887996078 23 9 -0.0254222005606 23 10 0.0251208990812 23 11 0.0251067001373 23 12 -0.0651037991047 23 13 -0.0651258006692 24 0 -0.172813996673 24 1 -0.172848001122 24 2 0.167298004031 24 4 0.122134000063 24 5 0.122119002044 24 6 -0.0417350009084 24 7 -0.0417340993881 24 8 0.00562974996865 24 9 0.00560944993049 24 10 0.0061168000102 24 11 0.006115490105 24 12 0.0435695983469 24 13 0.0435695014894)" "\n"
R"(A4 7.1.2 25 10 225 0 0 0.122739002109 0 1 0.122746996582 0 2 0.112474001944 0 4 0.156079992652 0 5 0.156081005931 0 6 0.183064997196 0 7 0.183052003384 0 8 0.243039995432 0 9 0.243034005165 1 0 0.138685002923 1 1 -0.138693004847 1 2 4.90334014103e-06 1 4 0.29013299942 1 5 -0.290141999722 1 6 0.147587001324 1 7 -0.147568002343 1 8 0.233209997416 1 9 -0.233191996813 2 0 -0.177700996399 2 1 -0.177726000547 2 2 -0.131475001574 2 4 -0.173819005489 2 5 -0.173805996776 2 6 -0.211342006922 2 7 -0.211337000132 2 8 0.468639999628 2 9 0.468638986349 3 0 0.163117006421 3 1 0.163118004799 3 2 0.197157993913 3 4 0.0264248996973 3 5 0.0264040995389 3 6 -0.298213005066 3 7 -0.29820099473 3 8 0.040577698499 3 9 0.0405786000192 4 0 0.232810005546 4 1 -0.232814997435 4 2 7.34689001547e-06 4 4 0.0453639999032 4 5 -0.04533040151 4 6 -0.232978999615 4 7 0.23296199739 4 8 0.0481913015246 4 9 -0.048162098974 5 0 -0.105437003076 5 1 0.105442002416 5 2 -2.06865006476e-05 5 4 -0.14117500186 5 5 0.141157999635 5 6 -0.104579001665 5 7 0.104589000344 5 8 0.334978997707 5 9 -0.334960997105 6 0 0.0364506989717 6 1 0.0364882983267 6 2 0.030705999583 6 4 -0.00743788015097 6 5 -0.0074628200382 6 6 -0.0221948996186 6 7 -0.0221922006458 6 8 0.252564996481 6 9 0.252577006817 7 0 -0.129816994071 7 1 -0.129840001464 7 2 -0.0719261020422 7 4 -0.024663599208 7 5 -0.0246591996402 7 6 0.166909992695 7 7 0.166911005974 7 8 0.0571125000715 7 9 0.0571402981877 8 0 0.0328686982393 8 1 0.0328539013863 8 2 0.229967996478 8 4 -0.300020009279 8 5 -0.300024986267 8 6 0.169955000281 8 7 0.169979006052 8 8 0.000704991980456 8 9 0.000677010975778 9 0 0.180373996496 9 1 -0.180363997817 9 2 4.90119009555e-06 9 4 -0.225903004408 9 5 0.225892007351 9 6 0.147801995277 9 7 -0.14782500267 9 8 0.0327981002629 9 9 -0.0327242985368 10 0 -0.160297006369 10 1 0.160301998258 10 2 -3.80958008463e-05 10 4 -0.0324089005589 10 5 0.0324257984757 10 6 0.140290006995 10 7 -0.140294000506 10 8 0.0583654008806 10 9 -0.0583602003753 11 0 -0.0326494015753 11 1 0.0326328985393 11 2 2.51917008427e-05 11 4 -0.0866319984198 11 5 0.0866706967354 11 6 -0.0356147997081 11 7 0.0355876013637 11 8 0.154228001833 11 9 -0.1542250067 12 0 -0.00985109992325 12 1 -0.00988988019526 12 2 -0.0833406969905 12 4 -0.0435716994107 12 5 -0.0435855984688 12 6 -0.00595941999927 12 7 -0.00592309003696 12 8 -0.0548610985279 12 9 -0.054862998426 13 0 -0.0295589007437 13 1 -0.0295327994972 13 2 -0.0597773008049 13 4 0.00295947003178 13 5 0.00292531005107 13 6 0.0825764983892 13 7 0.0825809985399 13 8 0.0248655006289 13 9 0.0248923990875 14 0 -0.0226850993931 14 1 -0.0227199997753 14 2 -0.0658055022359 14 4 0.127379998565 14 5 0.127386003733 14 6 -0.0531391017139 14 7 -0.0531257018447 14 8 0.00119119998999 14 9 0.00119630002882 15 0 -0.105791002512 15 1 -0.105820000172 15 2 0.235136002302 15 4 -0.0438240990043 15 5 -0.0437912009656 15 6 -0.00282705994323 15 7 -0.00286198011599 15 8 -0.00784914009273 15 9 -0.00787044968456 16 0 0.0573725998402 16 1 -0.0573226995766 16 2 1.1634099792e-05 16 4 -0.0240794997662 16 5 0.0240623001009 16 6 0.000635230971966 16 7 -0.000593719014432 16 8 0.0186810009181 16 9 -0.0186369996518 17 0 -0.112405002117 17 1 0.112443998456 17 2 -4.01770994358e-05 17 4 0.07935000211 17 5 -0.0793699994683 17 6 -0.0580639988184 17 7 0.058050699532 17 8 0.0291224997491 17 9 -0.0290955994278 18 0 -0.0118516003713 18 1 0.0118389995769 18 2 4.1527699068e-05 18 4 -0.000724756973796 18 5 0.000768050027546 18 6 0.0125890001655 18 7 -0.012578099966 18 8 0.0175209995359 18 9 -0.01754459925 19 0 0.0329089015722 19 1 -0.0328719988465 19 2 -1.65405999724e-05 19 4 -0.0121772000566 19 5 0.0121807996184 19 6 0.0258690007031 19 7 -0.0258614998311 19 8 -0.087798602879 19 9 0.0877922028303 20 0 0.0657778978348 20 1 0.0658186972141 20 2 0.0643782988191 20 4 0.0750666037202 20 5 0.0750996023417 20 6 0.0790131986141 20 7 0.0789813995361 20 8 -0.101424001157 20 9 -0.101434998214 21 0 0.03560090065 21 1 0.0355909988284 21 2 -0.0398221984506 21 4 0.000128846993903 21 5 0.000195012995391 21 6 -0.00599962007254 21 7 -0.00603805016726 21 8 -0.0151725998148 21 9 -0.0152077004313 22 0 -0.00677852984518 22 1 -0.00677066994831 22 2 -0.0311684999615 22 4 0.0173643007874 22 5 0.0173595007509 22 6 -0.0128191998228 22 7 -0.0128365997225 22 8 0.000582813983783 22 9 0.000615865981672 23 0 0.0538568012416 23 1 0.0538162998855 23 2 -0.0791528001428 23 4 0.0253893006593 23 5 0.0254273992032 23 6 -0.0490019991994 23 7 -0.0490412004292 23 8 -0.00753773981705 23 9 -0.00757387001067 24 0 -0.145515993237 24 1 -0.145531997085 24 2 0.203807994723 24 4 0.119978003204 24 5 0.119962997735 24 6 -0.0410979017615 24 7 -0.0410970002413 24 8 0.00979479029775 24 9 0.00978858955204)" "\n"
R"(A4 7.1.5.4 25 17 400 0 0 0.0346320010722 0 1 0.0346381999552 0 2 0.0609465017915 0 4 0.0786684006453 0 5 0.0786793977022 0 6 0.0813392996788 0 7 0.0813210979104 0 8 0.10934600234 0 9 0.109337002039 0 10 0.109586000443 0 11 0.109589003026 0 12 0.0994798019528 0 13 0.143290996552 0 14 0.143301993608 0 15 0.143552005291 0 16 0.143548995256 1 0 0.0657081007957 1 1 -0.0657156035304 1 2 -1.42967996908e-06 1 4 0.210942998528 1 5 -0.210969001055 1 6 0.0770080015063 1 7 -0.0769665017724 1 8 0.146922007203 1 9 -0.146886005998 1 10 0.140893995762 1 11 -0.14090000093 1 12 -7.30941019356e-06 1 13 -0.140056997538 1 14 0.140081003308 1 15 0.134085997939 1 16 -0.134086996317 2 0 -3.63980007023e-06 2 1 -3.39528992299e-06 2 2 1.03854999907e-05 2 4 -3.22579990097e-06 2 5 -2.39453993345e-06 2 6 4.63329996592e-07 2 7 -9.60149009188e-07 2 8 0.186342000961 2 9 0.186340004206 2 10 0.186993002892 2 11 0.186991006136 2 12 0.259846001863 2 13 -0.27625399828 2 14 -0.276244997978 2 15 -0.276910990477 2 16 -0.276892989874 3 0 0.0737577006221 3 1 0.0737721994519 3 2 0.167696997523 3 4 0.0109332995489 3 5 0.0109216002747 3 6 -0.197137996554 3 7 -0.197117999196 3 8 0.147194996476 3 9 0.147194996476 3 10 -0.147530004382 3 11 -0.147529006004 3 12 -1.1092600289e-05 3 13 0.140358000994 3 14 0.14037899673 3 15 -0.140718996525 3 16 -0.14072099328 4 0 0.125178992748 4 1 -0.125186994672 4 2 -7.42425015687e-07 4 4 0.0234428998083 4 5 -0.0234147999436 4 6 -0.144011005759 4 7 0.143974006176 4 8 0.133113995194 4 9 -0.133083999157 4 10 -0.118041999638 4 11 0.118031002581 4 12 5.39397979082e-06 4 13 -0.129308000207 4 14 0.129316002131 4 15 -0.114247001708 4 16 0.114252001047 5 0 -1.5550700482e-05 5 1 2.50344010055e-06 5 2 -8.15659973341e-07 5 4 -7.05984984961e-06 5 5 4.52984022559e-06 5 6 2.60423007603e-07 5 7 -5.75994999963e-06 5 8 0.215184003115 5 9 -0.215143993497 5 10 0.210250005126 5 11 -0.210234001279 5 12 -1.56395999511e-05 5 13 0.199668005109 5 14 -0.19967700541 5 15 -0.194768995047 5 16 0.19475799799 6 0 -0.0789517015219 6 1 -0.0789702013135 6 2 -0.114669002593 6 4 -0.15494799614 6 5 -0.154978007078 6 6 -0.167052999139 6 7 -0.167015001178 6 8 0.0332069993019 6 9 0.033226698637 6 10 0.0334335006773 6 11 0.033420201391 6 12 0.323594987392 6 13 0.148989006877 6 14 0.148927003145 6 15 0.149159997702 6 16 0.149128004909 7 0 1.39968994972e-06 7 1 -8.64221965458e-06 7 2 1.95640004677e-05 7 4 1.52636002895e-05 7 5 -3.48815001416e-06 7 6 2.72326985851e-07 7 7 5.67456982026e-06 7 8 0.215298995376 7 9 0.215330004692 7 10 -0.216694995761 7 11 -0.216701000929 7 12 -1.95218999579e-05 7 13 -0.199827000499 7 14 -0.199825003743 7 15 0.201234996319 7 16 0.201232001185 8 0 0.0150033999234 8 1 0.0150148998946 8 2 0.204054996371 8 4 -0.232309997082 8 5 -0.232318997383 8 6 0.149541005492 8 7 0.1495950073 8 8 0.000499844027217 8 9 0.000490828009788 8 10 0.00029859598726 8 11 0.000272803998087 8 12 -4.34987987319e-06 8 13 0.000500133028254 8 14 0.000511232996359 8 15 0.000277959014056 8 16 0.000259477994405 9 0 0.109089002013 9 1 -0.109089002013 9 2 6.81512983647e-06 9 4 -0.186072006822 9 5 0.186051994562 9 6 0.120870999992 9 7 -0.120921000838 9 8 0.0293234009296 9 9 -0.0292578004301 9 10 0.00625341990963 9 11 -0.00621329015121 9 12 -1.08240001282e-05 9 13 -0.0288861002773 9 14 0.0288897007704 9 15 0.00581989018247 9 16 -0.00578443007544 10 0 -1.74441993295e-05 10 1 6.46981015962e-06 10 2 -2.51689994002e-06 10 4 3.14067983709e-05 10 5 7.01142016624e-06 10 6 3.477169912e-06 10 7 3.22325007573e-07 10 8 0.178335994482 10 9 -0.178326994181 10 10 -0.1653739959 10 11 0.165350005031 10 12 1.06851002784e-05 10 13 0.169402003288 10 14 -0.169392004609 10 15 0.156424999237 10 16 -0.156432002783 11 0 -0.0799729004502 11 1 0.0799868032336 11 2 -9.09709001462e-07 11 4 -0.198835998774 11 5 0.198877006769 11 6 -0.0877512022853 11 7 0.087707400322 11 8 0.109912000597 11 9 -0.109902001917 11 10 0.114433996379 11 11 -0.114387996495 11 12 -1.82850999408e-05 11 13 -0.0891627967358 11 14 0.0891339033842 11 15 0.0936326012015 11 16 -0.0936221033335 12 0 7.34166997063e-06 12 1 9.23726020119e-06 12 2 -2.46722993325e-05 12 4 6.44873989586e-06 12 5 1.88326998796e-06 12 6 -3.0424500892e-06 12 7 -2.81976008409e-06 12 8 -0.139109000564 12 9 -0.139103993773 12 10 -0.1404799968 12 11 -0.140488997102 12 12 0.279303997755 12 13 0.0317672006786 12 14 0.0318178012967 12 15 0.0331711992621 12 16 0.0331937000155 13 0 -0.0902611985803 13 1 -0.0902884975076 13 2 -0.145898997784 13 4 -0.013229499571 13 5 -0.0132293999195 13 6 0.196289002895 13 7 0.196264997125 13 8 0.109558999538 13 9 0.109600000083 13 10 -0.110903002322 13 11 -0.110923998058 13 12 -1.36909002322e-05 13 13 0.0888241007924 13 14 0.0887956991792 13 15 -0.0901542976499 13 16 -0.0901451036334 14 0 3.25297005475e-05 14 1 -1.16792998597e-05 14 2 1.44803004787e-06 14 4 6.06840012551e-06 14 5 2.8531899261e-06 14 6 -3.83878978027e-06 14 7 -1.52207003339e-05 14 8 0.000262268993538 14 9 0.000273106998065 14 10 0.00132882001344 14 11 0.0013219199609 14 12 -8.18308035377e-06 14 13 -0.000276339007542 14 14 -0.000267591007287 14 15 -0.0013093999587 14 16 -0.00131495995447 15 0 -0.0739748999476 15 1 -0.0739547982812 15 2 0.200513005257 15 4 -0.0255543999374 15 5 -0.025511899963 15 6 -0.0431012995541 15 7 -0.0431901998818 15 8 -0.0282633993775 15 9 -0.0282937008888 15 10 0.0286219995469 15 11 0.0286352001131 15 12 -7.05000002199e-06 15 13 -0.0278983991593 15 14 -0.0278501007706 15 15 0.0281981006265 15 16 0.0282396990806 16 0 0.0323607996106 16 1 -0.0323701016605 16 2 2.42103997152e-05 16 4 -0.0128244003281 16 5 0.012777400203 16 6 -0.0320109985769 16 7 0.0321202985942 16 8 0.000784203002695 16 9 -0.00071182200918 16 10 0.0254932008684 16 11 -0.0255388002843 16 12 2.32484990192e-06 16 13 -0.000702033983544 16 14 0.000766741984989 16 15 0.0254737995565 16 16 -0.0255444999784 17 0 1.77453002834e-05 17 1 1.34203000925e-05 17 2 -6.27983990853e-06 17 4 2.34500998886e-06 17 5 3.90686000173e-06 17 6 -8.74585020938e-06 17 7 2.28082008107e-05 17 8 0.0266545992345 17 9 -0.0266018994153 17 10 0.00578205985948 17 11 -0.00575760006905 17 12 -2.24334999075e-05 17 13 0.0258271992207 17 14 -0.0257971007377 17 15 -0.00493487017229 17 16 0.00494109001011 18 0 -0.114952996373 18 1 0.114970996976 18 2 -6.60901014271e-06 18 4 -0.0215649008751 18 5 0.0215684007853 18 6 0.11603499949 18 7 -0.116001002491 18 8 0.0892288982868 18 9 -0.0892478004098 18 10 -0.0957079976797 18 11 0.0956837981939 18 12 1.15810998977e-05 18 13 -0.0758922025561 18 14 0.0758792981505 18 15 -0.0823405012488 18 16 0.0823443979025 19 0 2.56360999629e-05 19 1 -3.58723991667e-06 19 2 -1.00652005131e-06 19 4 6.68465008857e-06 19 5 -5.67263995777e-08 19 6 -2.68734993369e-06 19 7 2.09805002669e-05 19 8 -0.0363548994064 19 9 0.0363508015871 19 10 -0.0277267992496 19 11 0.0277596004307 19 12 -1.11794997792e-05 19 13 -0.0553404986858 19 14 0.0553613007069 19 15 0.0467692986131 19 16 -0.0467494018376 20 0 0.0855394974351 20 1 0.0855707973242 20 2 0.0677208006382 20 4 0.11105799675 20 5 0.111097000539 20 6 0.137887999415 20 7 0.137859001756 20 8 -0.134161993861 20 9 -0.134173005819 20 10 -0.136113002896 20 11 -0.136112004519 20 12 0.163665995002 20 13 -0.0590656995773 20 14 -0.0590628013015 20 15 -0.0609693005681 20 16 -0.0609865002334 21 0 -1.04806003947e-05 21 1 1.49839997903e-05 21 2 -2.68490002782e-05 21 4 -2.22969993047e-05 21 5 6.2262101892e-06 21 6 1.59699004598e-06 21 7 -1.73683997673e-06 21 8 -0.0366549007595 21 9 -0.0366717018187 21 10 0.0380989015102 21 11 0.0380707010627 21 12 6.06161984251e-06 21 13 0.0556728988886 21 14 0.0556584000587 21 15 -0.0571040995419 21 16 -0.0571096017957 22 0 -0.0148234004155 22 1 -0.0148435998708 22 2 -0.116290003061 22 4 0.14394299686 22 5 0.143959999084 22 6 -0.0845422968268 22 7 -0.0845658034086 22 8 -0.000435221008956 22 9 -0.000419691990828 22 10 0.00144959997851 22 11 0.00147284998093 22 12 -7.67887013353e-06 22 13 -0.000426815007813 22 14 -0.000443149008788 22 15 0.00145423004869 22 16 0.00147848995402 23 0 5.81599015277e-05 23 1 -1.41067002914e-05 23 2 -3.4964599763e-05 23 4 -2.9843300581e-05 23 5 5.93229015067e-06 23 6 1.06767004127e-06 23 7 6.05862987868e-06 23 8 -0.0260134991258 23 9 -0.0260377991945 23 10 0.0257185995579 23 11 0.0257028993219 23 12 -1.42380004036e-05 23 13 0.0252288002521 23 14 0.0252014994621 23 15 -0.0248971991241 23 16 -0.0249064005911 24 0 -0.114390999079 24 1 -0.1143470034 24 2 0.165913000703 24 4 0.102692998946 24 5 0.102655000985 24 6 -0.0205706991255 24 7 -0.0205597002059 24 8 0.00925274007022 24 9 0.00925051979721 24 10 0.00973679032177 24 11 0.00973861012608 24 12 -0.00876126997173 24 13 0.00555387977511 24 14 0.0055683599785 24 15 0.00607470981777 24 16 0.00607476988807)" "\n"
R"(A4 9+10+3 25 24 550 0 0 0.0382320992649 0 1 0.0382348001003 0 2 0.0229249000549 0 4 0.136319994926 0 5 0.136317998171 0 6 0.0387973003089 0 7 0.0387988984585 0 8 0.136317998171 0 10 0.124509997666 0 11 0.12451300025 0 12 0.0516089983284 0 13 0.0515954010189 0 14 0.0577651001513 0 15 0.126801997423 0 16 0.0562810003757 0 17 0.0562709011137 0 18 0.0570179000497 0 19 0.0570188984275 0 20 0.0562743991613 0 21 0.0934555009007 0 22 0.0872925966978 0 23 0.0872837975621 1 0 0.096650801599 1 1 -0.0966536998749 1 2 1.2073200196e-05 1 4 0.172260001302 1 5 -0.17226600647 1 6 0.0509345009923 1 7 -0.0509372018278 1 8 -9.0413595899e-06 1 10 0.212479993701 1 11 -0.212496995926 1 12 0.0811116024852 1 13 -0.0811055973172 1 14 1.12041998364e-05 1 15 1.45268004417e-05 1 16 0.0891826972365 1 17 -0.0891748964787 1 18 0.12850099802 1 19 -0.128501996398 1 20 7.28427994545e-06 1 21 -5.02650982526e-06 1 22 0.0770829990506 1 23 -0.0770668983459 2 0 0.000298906001262 2 1 0.000288004986942 2 2 -2.10270991374e-05 2 4 -0.174458995461 2 5 -0.174446001649 2 6 2.5722299597e-06 2 7 1.38065997817e-05 2 8 -0.174439996481 2 10 -0.178022995591 2 11 -0.178012996912 2 12 0.0878857970238 2 13 0.0878619030118 2 14 0.0927086025476 2 15 0.321410000324 2 16 0.0918473005295 2 17 0.0918217971921 2 18 0.0922719985247 2 19 0.0922716036439 2 20 0.0918309986591 2 21 -0.183914005756 2 22 -0.179061993957 2 23 -0.179074004292 3 0 0.0506237000227 3 1 0.0506341010332 3 2 0.0667802020907 3 4 -0.172261998057 3 5 -0.17226600647 3 6 0.0982844978571 3 7 0.0982846021652 3 8 -0.243619993329 3 10 -0.0135610997677 3 11 -0.0135596999899 3 12 0.0811206996441 3 13 0.0810957998037 3 14 0.130884006619 3 15 -5.90822992308e-06 3 16 -0.0891939997673 3 17 -0.0891887024045 3 18 -6.64414983476e-05 3 19 -7.05904021743e-05 3 20 -0.126124992967 3 21 0.12519299984 3 22 0.077101200819 3 23 0.0770684033632 4 0 0.117972999811 4 1 -0.117989003658 4 2 3.12972006213e-05 4 4 -0.269371986389 4 5 0.269374996424 4 6 0.118840999901 4 7 -0.118840999901 4 8 8.16594001662e-06 4 10 -0.0336256995797 4 11 0.0336120016873 4 12 0.118724003434 4 13 -0.118708997965 4 14 1.90464998013e-05 4 15 5.38099993719e-06 4 16 -0.12725199759 4 17 0.12725199759 4 18 0.000284125009784 4 19 -0.00027297300403 4 20 -1.31301003421e-05 4 21 -6.38372011963e-06 4 22 0.114263996482 4 23 -0.114219002426 5 0 0.000821752008051 5 1 -0.000800828973297 5 2 -6.8917097451e-07 5 4 -0.103667996824 5 5 0.103667996824 5 6 -2.60491992776e-06 5 7 -1.18545003716e-05 5 8 3.29763997797e-06 5 10 -0.155857995152 5 11 0.155852004886 5 12 0.121468000114 5 13 -0.121448002756 5 14 1.84104992513e-05 5 15 2.59566004388e-05 5 16 0.127976000309 5 17 -0.127947002649 5 18 0.182382002473 5 19 -0.182371005416 5 20 1.25114002003e-05 5 21 6.99916017766e-06 5 22 -0.112787000835 5 23 0.112792998552 6 0 -0.0802650973201 6 1 -0.0802780017257 6 2 -0.0524365007877 6 4 0.0165568999946 6 5 0.0165420994163 6 6 -0.0815375000238 6 7 -0.0815298035741 6 8 0.0165465008467 6 10 0.0411695986986 6 11 0.0411496013403 6 12 0.0139215998352 6 13 0.0139086004347 6 14 0.0022412200924 6 15 0.373376995325 6 16 0.00544041022658 6 17 0.00541062001139 6 18 0.00383930001408 6 19 0.00383956008591 6 20 0.00542569020763 6 21 0.110512003303 6 22 0.122124999762 6 23 0.122189998627 7 0 0.000147042999743 7 1 0.000131362001412 7 2 -5.43932001165e-05 7 4 0.103658996522 7 5 0.10364600271 7 6 6.62115007799e-06 7 7 3.00875999528e-05 7 8 0.146578997374 7 10 -0.00269569992088 7 11 -0.00268673989922 7 12 0.12147500366 7 13 0.121460996568 7 14 0.183767005801 7 15 -7.05027014192e-06 7 16 -0.12797999382 7 17 -0.127981007099 7 18 -0.000164179000421 7 19 -0.000162369993632 7 20 -0.180972993374 7 21 -0.171507999301 7 22 -0.112806998193 7 23 -0.11279900372 8 0 -0.0814258009195 8 1 -0.0814108997583 8 2 0.090829603374 8 4 -1.10179996682e-06 8 5 7.4700001278e-06 8 6 0.0835988000035 8 7 0.0835900977254 8 8 0.269381999969 8 10 -0.238250002265 8 11 -0.238260999322 8 12 1.59277005878e-05 8 13 -2.73629993899e-05 8 14 0.135225996375 8 15 1.78553000296e-06 8 16 1.88804006029e-05 8 17 1.13213000077e-05 8 18 -0.131235003471 8 19 -0.131240993738 8 20 0.127256006002 8 21 0.130776003003 8 22 2.00650993065e-05 8 23 4.73634003129e-07 9 0 -0.0188161004335 9 1 0.0187804996967 9 2 5.05345014972e-05 9 4 0.166087001562 9 5 -0.16609300673 9 6 0.159572005272 9 7 -0.159559994936 9 8 -5.52747997062e-06 9 10 -0.217512995005 9 11 0.217527002096 9 12 0.0735405981541 9 13 -0.0734815970063 9 14 1.95032007468e-05 9 15 -1.02889998743e-05 9 16 0.0726668983698 9 17 -0.0726556032896 9 18 -0.10839600116 9 19 0.108397997916 9 20 1.7679800294e-05 9 21 2.50191010309e-06 9 22 0.0715731978416 9 23 -0.0715114027262 10 0 0.000434298010077 10 1 -0.000400524993893 10 2 -1.96978999156e-06 10 4 0.14614200592 10 5 -0.14612300694 10 6 -6.41548012936e-06 10 7 -2.15180007217e-05 10 8 1.44915002238e-05 10 10 -0.00751277990639 10 11 0.00750656984746 10 12 0.17644199729 10 13 -0.17644199729 10 14 2.83733006654e-05 10 15 8.92230036698e-06 10 16 -0.183810994029 10 17 0.183810994029 10 18 -9.03621985344e-05 10 19 8.62423985382e-05 10 20 -1.74934993993e-05 10 21 1.37592996907e-05 10 22 -0.166281998158 10 23 0.166270002723 11 0 -0.101749002934 11 1 0.10176499933 11 2 -1.33688999995e-05 11 4 -0.0514278002083 11 5 0.0514233000576 11 6 -0.0552483983338 11 7 0.0552452988923 11 8 -1.20161002997e-05 11 10 -0.0403065010905 11 11 0.0403303988278 11 12 0.0650333985686 11 13 -0.0649994984269 11 14 1.55108991748e-05 11 15 2.19062003453e-05 11 16 0.0586634017527 11 17 -0.0586210004985 11 18 0.0804596021771 11 19 -0.0804274976254 11 20 1.60560994118e-05 11 21 3.41170994034e-06 11 22 0.0544777996838 11 23 -0.0545273981988 12 0 -0.000950512010604 12 1 -0.00093260401627 12 2 5.10454992764e-05 12 4 -0.0274966992438 12 5 -0.0274889990687 12 6 -3.06676997752e-06 12 7 -3.31812007062e-05 12 8 -0.0275084003806 12 10 -0.0173741001636 12 11 -0.0173829998821 12 12 -0.07159139961 12 13 -0.0715989023447 12 14 -0.0855747014284 12 15 0.27959099412 12 16 -0.0828493982553 12 17 -0.0828746035695 12 18 -0.0842306017876 12 19 -0.0842047035694 12 20 -0.0828517004848 12 21 -0.000150074993144 12 22 -0.0140342004597 12 23 -0.0140944998711 13 0 -0.0548495985568 13 1 -0.0548763014376 13 2 -0.0821174010634 13 4 0.0514319986105 13 5 0.051442399621 13 6 -0.10368900001 13 7 -0.103662997484 13 8 0.0727263987064 13 10 0.0146035002545 13 11 0.0145857995376 13 12 0.0650300011039 13 13 0.0650551021099 13 14 0.0779213011265 13 15 3.54580993189e-06 13 16 -0.0586455985904 13 17 -0.0586557984352 13 18 -6.53446986689e-05 13 19 -5.70869997318e-05 13 20 -0.0829354971647 13 21 0.0630355030298 13 22 0.0544779002666 13 23 0.0545285008848 14 0 -0.00117663003039 14 1 -0.00116782996338 14 2 -7.5087096775e-05 14 4 2.04647003557e-05 14 5 2.16746993829e-05 14 6 1.12463003461e-05 14 7 2.31400008488e-05 14 8 -0.14611299336 14 10 0.157918006182 14 11 0.157906994224 14 12 1.30104999698e-05 14 13 -6.44535020911e-08 14 14 0.189235001802 14 15 5.21106994711e-06 14 16 1.09147003968e-05 14 17 3.7888501538e-05 14 18 -0.186523005366 14 19 -0.186534002423 14 20 0.183812007308 14 21 -0.179083004594 14 22 -1.76308003574e-05 14 23 -1.25257001855e-05 15 0 -0.157997995615 15 1 -0.157996997237 15 2 0.10602799803 15 4 0.166078999639 15 5 0.166078999639 15 6 0.0212421007454 15 7 0.0212262999266 15 8 -0.234897002578 15 10 0.0504659004509 15 11 0.0504429005086 15 12 -0.0735047981143 15 13 -0.0735523998737 15 14 0.114030003548 15 15 -9.37428012548e-06 15 16 0.0726348981261 15 17 0.0726557970047 15 18 -0.00164507003501 15 19 -0.00162642996293 15 20 -0.102757997811 15 21 0.111281000078 15 22 -0.0715257972479 15 23 -0.0715217962861 16 0 -0.147200003266 16 1 0.147165998816 16 2 6.313490303e-05 16 4 -4.7452799663e-06 16 5 1.21702996694e-05 16 6 0.149526998401 16 7 -0.149498000741 16 8 6.02172985964e-06 16 10 0.0567816011608 16 11 -0.0567441992462 16 12 3.14641984005e-05 16 13 6.50806032354e-05 16 14 1.77207002707e-05 16 15 3.41119994118e-06 16 16 -1.70594994415e-05 16 17 -1.82190997293e-05 16 18 -0.00417052023113 16 19 0.00414582993835 16 20 -2.46097006311e-05 16 21 9.31618978939e-06 16 22 3.02940006804e-05 16 23 2.05360993277e-05 17 0 -0.00143526005559 17 1 0.00145146995783 17 2 -2.93970992971e-06 17 4 -0.0834752991796 17 5 0.0834518000484 17 6 -8.43694033392e-06 17 7 -1.2173200048e-05 17 8 -2.29000997933e-05 17 10 0.129668995738 17 11 -0.129685997963 17 12 0.107721999288 17 13 -0.107712998986 17 14 1.85900007637e-05 17 15 -1.85502995009e-05 17 16 0.106991000473 17 17 -0.107015997171 17 18 -0.155688002706 17 19 0.155716001987 17 20 9.8713198895e-06 17 21 8.29870987218e-06 17 22 -0.102964997292 17 23 0.102935999632 18 0 -0.0911502018571 18 1 0.0911948010325 18 2 -2.46894996963e-05 18 4 0.0241004992276 18 5 -0.0241098999977 18 6 -0.0919966027141 18 7 0.0919815972447 18 8 7.28897020963e-06 18 10 0.0258965995163 18 11 -0.0258882995695 18 12 0.11825799942 18 13 -0.118280999362 18 14 2.8145399483e-05 18 15 6.4027199187e-06 18 16 -0.114393003285 18 17 0.114396996796 18 18 -0.00051182002062 18 19 0.00049357599346 18 20 -2.71812004939e-05 18 21 -3.28287001139e-06 18 22 0.103914000094 18 23 -0.103968001902 19 0 -0.00176946003921 19 1 0.00176013004966 19 2 3.14936005452e-06 19 4 0.0122672002763 19 5 -0.0122579997405 19 6 7.29687008061e-06 19 7 2.09883000934e-05 19 8 3.00428000628e-05 19 10 0.0341589003801 19 11 -0.0341408997774 19 12 -0.0216464996338 19 13 0.0216783992946 19 14 5.6332701206e-06 19 15 6.64356002744e-06 19 16 -0.0334984995425 19 17 0.0335250012577 19 18 -0.0501917004585 19 19 0.0502158999443 19 20 1.62803007697e-05 19 21 -2.04731004487e-05 19 22 0.0295126996934 19 23 -0.0294674001634 20 0 0.0693100988865 20 1 0.0693411007524 20 2 0.0572998002172 20 4 0.069716103375 20 5 0.0696903988719 20 6 0.0706150010228 20 7 0.0705842971802 20 8 0.069696597755 20 10 0.0490472987294 20 11 0.0490499995649 20 12 -0.0711005032063 20 13 -0.0711155980825 20 14 -0.0647957995534 20 15 0.11198399961 20 16 -0.0675856024027 20 17 -0.0676075965166 20 18 -0.066244803369 20 19 -0.06616409868 20 20 -0.0675825029612 20 21 -0.0224300008267 20 22 -0.0288305003196 20 23 -0.0288181006908 21 0 -0.000324380991515 21 1 -0.000307403999614 21 2 7.685089804e-05 21 4 -0.0122552001849 21 5 -0.0122646000236 21 6 -2.34979006564e-06 21 7 -4.00747994718e-05 21 8 -0.0173045992851 21 10 0.00491272006184 21 11 0.00494003016502 21 12 -0.0216514002532 21 13 -0.0216199997813 21 14 -0.0530259013176 21 15 2.06767999771e-05 21 16 0.0335238985717 21 17 0.0335204005241 21 18 0.000272918987321 21 19 0.000271808996331 21 20 0.0473865009844 21 21 0.0640735030174 21 22 0.0295270998031 21 23 0.0294890999794 22 0 0.0580536015332 22 1 0.0580388009548 22 2 -0.0849952027202 22 4 -1.11983999886e-05 22 5 -1.06892002805e-05 22 6 -0.0599501989782 22 7 -0.0599103011191 22 8 -0.0240969005972 22 10 0.00187408004422 22 11 0.00190091005061 22 12 -3.99763985115e-06 22 13 5.84172012168e-05 22 14 0.108943000436 22 15 9.71400004346e-06 22 16 -1.25878996187e-05 22 17 4.85232012579e-05 22 18 -0.111676998436 22 19 -0.111681997776 22 20 0.114393003285 22 21 0.0946009010077 22 22 -6.33624995316e-06 22 23 1.20546001199e-05 23 0 -0.000837558007333 23 1 -0.000798274006229 23 2 -9.0269400971e-05 23 4 -0.0834916010499 23 5 -0.0834871008992 23 6 1.69601007656e-05 23 7 7.99719964562e-06 23 8 0.118047997355 23 10 0.0134201003239 23 11 0.0133940996602 23 12 -0.107693001628 23 13 -0.107738003135 23 14 0.160080999136 23 15 -1.73195003299e-05 23 16 0.106976002455 23 17 0.106974996626 23 18 -0.000862673972733 23 19 -0.00086765200831 23 20 -0.151316002011 23 21 -0.153384000063 23 22 0.102917000651 23 23 0.102917000651 24 0 -0.0567856989801 24 1 -0.0568189993501 24 2 0.112703002989 24 4 -0.162936002016 24 5 -0.162947997451 24 6 -0.0544014014304 24 7 -0.0544128008187 24 8 0.162973001599 24 10 0.167870998383 24 11 0.167870000005 24 12 -0.0812805965543 24 13 -0.0812703967094 24 14 0.0801485031843 24 15 2.59369007836e-05 24 16 -0.0670244023204 24 17 -0.0670334994793 24 18 0.0736126974225 24 19 0.073601603508 24 20 0.067042902112 24 21 0.0788286030293 24 22 -0.0798783972859 24 23 -0.079857699573)" "\n"
R"(A4 9.1.6 25 16 375 0 0 0.0382320992649 0 1 0.0382348001003 0 2 0.116379998624 0 4 0.232711002231 0 5 0.232709005475 0 6 0.166935995221 0 7 0.166929006577 0 8 0.124509997666 0 9 0.12451300025 0 10 0.115010000765 0 11 0.114996999502 0 12 0.159474000335 0 13 0.159464001656 0 14 0.0570179000497 0 15 0.0570188984275 1 0 0.096650801599 1 1 -0.0966536998749 1 2 7.04666990714e-06 1 4 0.172253996134 1 5 -0.172271996737 1 6 0.128025993705 1 7 -0.127995997667 1 8 0.212479993701 1 9 -0.212496995926 1 10 0.081118799746 1 11 -0.0810984000564 1 12 0.0891951993108 1 13 -0.089162401855 1 14 0.12850099802 1 15 -0.128501996398 2 0 0.000298906001262 2 1 0.000288004986942 2 2 -0.183935001493 2 4 -0.297807008028 2 5 -0.297794014215 2 6 -0.113504998386 2 7 -0.113505996764 2 8 -0.178022995591 2 9 -0.178012996912 2 10 0.248591005802 2 11 0.248567000031 2 12 0.317487001419 2 13 0.317461013794 2 14 0.0922719985247 2 15 0.0922716036439 3 0 0.0506237000227 3 1 0.0506341010332 3 2 0.191973000765 3 4 -0.344527989626 3 5 -0.344532012939 3 6 0.267935007811 3 7 0.267901986837 3 8 -0.0135610997677 3 9 -0.0135596999899 3 10 0.0811176970601 3 11 0.0810929015279 3 12 -0.178380995989 3 13 -0.178375005722 3 14 -6.64414983476e-05 3 15 -7.05904021743e-05 4 0 0.117972999811 4 1 -0.117989003658 4 2 2.49134991464e-05 4 4 -0.269365996122 4 5 0.269380986691 4 6 0.233117997646 4 7 -0.233046993613 4 8 -0.0336256995797 4 9 0.0336120016873 4 10 0.118726998568 4 11 -0.118707001209 4 12 -0.127259001136 4 13 0.127246007323 4 14 0.000284125009784 4 15 -0.00027297300403 5 0 0.000821752008051 5 1 -0.000800828973297 5 2 6.30999011264e-06 5 4 -0.103666000068 5 5 0.103670999408 5 6 -0.112775996327 5 7 0.11279399693 5 8 -0.155857995152 5 9 0.155852004886 5 10 0.121481001377 5 11 -0.121435001493 5 12 0.127997994423 5 13 -0.127926006913 5 14 0.182382002473 5 15 -0.182371005416 6 0 -0.0802650973201 6 1 -0.0802780017257 6 2 0.0580752007663 6 4 0.0282569993287 6 5 0.028242200613 6 6 0.0421727001667 6 7 0.0422445014119 6 8 0.0411695986986 6 9 0.0411496013403 6 10 0.200609996915 6 11 0.200597003102 6 12 0.195966005325 6 13 0.195935994387 6 14 0.00383930001408 6 15 0.00383956008591 7 0 0.000147042999743 7 1 0.000131362001412 7 2 -0.171562999487 7 4 0.20730599761 7 5 0.207293003798 7 6 0.0171425994486 7 7 0.0171741992235 7 8 -0.00269569992088 7 9 -0.00268673989922 7 10 0.121472001076 7 11 0.121458001435 7 12 -0.255950987339 7 13 -0.255950987339 7 14 -0.000164179000421 7 15 -0.000162369993632 8 0 -0.0814258009195 8 1 -0.0814108997583 8 2 0.221606001258 8 4 0.19047999382 8 5 0.190488994122 8 6 0.179238006473 8 7 0.179208993912 8 8 -0.238250002265 8 9 -0.238260999322 8 10 1.68205006048e-05 8 11 -2.64701993729e-05 8 12 0.090003401041 8 13 0.0899958014488 8 14 -0.131235003471 8 15 -0.131240993738 9 0 -0.0188161004335 9 1 0.0187804996967 9 2 5.30364013684e-05 9 4 0.16608299315 9 5 -0.166097000241 9 6 0.231159001589 9 7 -0.231058001518 9 8 -0.217512995005 9 9 0.217527002096 9 10 0.0735353976488 9 11 -0.073486700654 9 12 0.0726742967963 9 13 -0.0726483017206 9 14 -0.10839600116 9 15 0.108397997916 10 0 0.000434298010077 10 1 -0.000400524993893 10 2 1.17894996947e-05 10 4 0.146153002977 10 5 -0.14611299336 10 6 -0.166268005967 10 7 0.166269004345 10 8 -0.00751277990639 10 9 0.00750656984746 10 10 0.17644700408 10 11 -0.176437005401 10 12 -0.183818995953 10 13 0.183804005384 10 14 -9.03621985344e-05 10 15 8.62423985382e-05 11 0 -0.101749002934 11 1 0.10176499933 11 2 -9.95720984065e-06 11 4 -0.0514363013208 11 5 0.0514147989452 11 6 -0.000759685004596 11 7 0.000728855025955 11 8 -0.0403065010905 11 9 0.0403303988278 11 10 0.0650444030762 11 11 -0.06498850137 11 12 0.0586857013404 11 13 -0.0585987009108 11 14 0.0804596021771 11 15 -0.0804274976254 12 0 -0.000950512010604 12 1 -0.00093260401627 12 2 -9.90297994576e-05 12 4 -0.0469481013715 12 5 -0.0469404011965 12 6 -0.0745477005839 12 7 -0.0746382027864 12 8 -0.0173741001636 12 9 -0.0173829998821 12 10 0.0682042986155 12 11 0.0681968033314 12 12 -0.00163864996284 12 13 -0.0016639099922 12 14 -0.0842306017876 12 15 -0.0842047035694 13 0 -0.0548495985568 13 1 -0.0548763014376 13 2 -0.0190817993134 13 4 0.102857001126 13 5 0.102867998183 13 6 0.00588752981275 13 7 0.00596457021311 13 8 0.0146035002545 13 9 0.0145857995376 13 10 0.0650316998363 13 11 0.0650568976998 13 12 -0.117288000882 13 13 -0.117297999561 13 14 -6.53446986689e-05 13 15 -5.70869997318e-05 14 0 -0.00117663003039 14 1 -0.00116782996338 14 2 -0.179159000516 14 4 -0.103297002614 14 5 -0.103295996785 14 6 0.133802995086 14 7 0.133819997311 14 8 0.157918006182 14 9 0.157906994224 14 10 1.56160003826e-05 14 11 2.54107999353e-06 14 12 0.129987999797 14 13 0.130015000701 14 14 -0.186523005366 14 15 -0.186534002423 15 0 -0.157997995615 15 1 -0.157996997237 15 2 0.217308998108 15 4 -1.82399999176e-05 15 5 -1.83111005754e-05 15 6 0.0303474999964 15 7 0.0303358007222 15 8 0.0504659004509 15 9 0.0504429005086 15 10 -0.0735094994307 15 11 -0.0735571011901 15 12 -3.05569010379e-05 15 13 -9.6098301583e-06 15 14 -0.00164507003501 15 15 -0.00162642996293 16 0 -0.147200003266 16 1 0.147165998816 16 2 7.24510973669e-05 16 4 -4.87279010031e-07 16 5 1.64282992046e-05 16 6 0.149570003152 16 7 -0.149464994669 16 8 0.0567816011608 16 9 -0.0567441992462 16 10 3.31697992806e-05 16 11 6.67861968395e-05 16 12 -3.27556008415e-05 16 13 -3.39151993103e-05 16 14 -0.00417052023113 16 15 0.00414582993835 17 0 -0.00143526005559 17 1 0.00145146995783 17 2 5.35900016985e-06 17 4 -0.0834914967418 17 5 0.0834356024861 17 6 -0.102959997952 17 7 0.10293699801 17 8 0.129668995738 17 9 -0.129685997963 17 10 0.107712998986 17 11 -0.107721999288 17 12 0.106989003718 17 13 -0.107018001378 17 14 -0.155688002706 17 15 0.155716001987 18 0 -0.0911502018571 18 1 0.0911948010325 18 2 -2.79724008578e-05 18 4 0.0241056997329 18 5 -0.0241046994925 18 6 0.0119367996231 18 7 -0.0119663998485 18 8 0.0258965995163 18 9 -0.0258882995695 18 10 0.118262000382 18 11 -0.118276998401 18 12 -0.114408999681 18 13 0.1143810004 18 14 -0.00051182002062 18 15 0.00049357599346 19 0 -0.00176946003921 19 1 0.00176013004966 19 2 -1.73238004209e-05 19 4 0.012288399972 19 5 -0.0122367003933 19 6 0.0295240003616 19 7 -0.0294425003231 19 8 0.0341589003801 19 9 -0.0341408997774 19 10 -0.0216432008892 19 11 0.0216816999018 19 12 -0.0334836989641 19 13 0.033539801836 19 14 -0.0501917004585 19 15 0.0502158999443 20 0 0.0693100988865 20 1 0.0693411007524 20 2 0.0348698012531 20 4 0.118998996913 20 5 0.118973001838 20 6 -0.00403307005763 20 7 -0.00405137008056 20 8 0.0490472987294 20 9 0.0490499995649 20 10 -0.0151084000245 20 11 -0.0151234995574 20 12 -0.0593816004694 20 13 -0.0594035983086 20 14 -0.066244803369 20 15 -0.06616409868 21 0 -0.000324380991515 21 1 -0.000307403999614 21 2 0.0641503036022 21 4 -0.0244913995266 21 5 -0.0245008002967 21 6 -0.00797025021166 21 7 -0.00804594997317 21 8 0.00491272006184 21 9 0.00494003016502 21 10 -0.0216409992427 21 11 -0.0216096006334 21 12 0.0670415014029 21 13 0.06703799963 21 14 0.000272918987321 21 15 0.000271808996331 22 0 0.0580536015332 22 1 0.0580388009548 22 2 0.00960562005639 22 4 -0.0170502997935 22 5 -0.0170498006046 22 6 0.0170779991895 22 7 0.0171364005655 22 8 0.00187408004422 22 9 0.00190091005061 22 10 8.5936500227e-07 22 11 6.32742012385e-05 22 12 0.0808805003762 22 13 0.0809416025877 22 14 -0.111676998436 22 15 -0.111681997776 23 0 -0.000837558007333 23 1 -0.000798274006229 23 2 -0.153474003077 23 4 -1.92000006791e-05 23 5 -1.47389000631e-05 23 6 0.216128006577 23 7 0.216119006276 23 8 0.0134201003239 23 9 0.0133940996602 23 10 -0.107702001929 23 11 -0.107745997608 23 12 -2.93031007459e-05 23 13 -2.99723997159e-05 23 14 -0.000862673972733 23 15 -0.00086765200831 24 0 -0.0567856989801 24 1 -0.0568189993501 24 2 0.191532000899 24 4 -0.0476970002055 24 5 -0.047708299011 24 6 -0.0776062011719 24 7 -0.0775967985392 24 8 0.167870998383 24 9 0.167870000005 24 10 -0.0812676027417 24 11 -0.0812574997544 24 12 -0.0196049008518 24 13 -0.0196139998734 24 14 0.0736126974225 24 15 0.073601603508)" "\n"
