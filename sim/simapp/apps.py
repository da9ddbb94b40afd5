from django.apps import AppConfig


class SimAppConfig(AppConfig):
    name = "sim.simapp"
    label = "simapp"
    default_auto_field = "django.db.models.AutoField"
