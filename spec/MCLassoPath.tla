----------------------------- MODULE MCLassoPath -----------------------------
EXTENDS LassoPath
Base4 == <<-3, -1, 1, 3>>
Base5 == <<-2, -1, 0, 1, 2>>
===============================================================================
