/* No CPU features. */
