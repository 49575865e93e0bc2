"""Stand-in for the parts of `conda` that conda-recipe-manager imports."""
