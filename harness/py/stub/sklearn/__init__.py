"""The little of scikit-learn that the classes of bitboost use (scikit-learn is not installed)."""
